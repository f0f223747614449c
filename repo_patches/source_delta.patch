From 9eb617c3060b66677c8eeeee6900e2a551d3d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 001/151] fix: a crash with crash reporting disabled must still
 end the process

---
 include/huira_impl/util/logger.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..61190c1 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -409,6 +409,10 @@ void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
+        // Reporting is off: let the signal take its default effect. Merely returning would
+        // re-execute a faulting instruction forever.
+        std::signal(signal, SIG_DFL);
+        std::raise(signal);
         return;
     }
     // Only print crash report once
-- 
2.43.0


From 566003af0612d7b6b3e7b2b2fad287ca273281d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 002/151] fix: guard the log buffer and sink against concurrent
 use

---
 include/huira/util/logger.hpp      |  7 ++++++-
 include/huira_impl/util/logger.ipp | 22 ++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..702fdba 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -61,7 +62,7 @@ struct LogEntry {
  * - Per-level console output configuration
  * - Cross-platform crash reporting (signals and SEH)
  *
- * The logger is thread-safe and uses lock-free atomic operations for performance.
+ * The logger is thread-safe: settings are atomic, and the buffer and sink are guarded by a mutex.
  * Log entries are stored in a circular buffer and can be dumped to a file on demand
  * or automatically during crashes.
  */
@@ -123,6 +124,10 @@ class Logger {
     std::atomic<bool> console_warning_;
     CustomSink custom_sink_;
 
+    // Guards buffer_ and custom_sink_. Recursive, so that a crash handler can still log and dump
+    // when the crash happened inside the logger.
+    std::recursive_mutex mutex_;
+
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
 };
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 61190c1..26b42d1 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -136,6 +136,7 @@ void Logger::set_buffer_size(size_t size)
     if (size == 0) {
         size = 1;
     }
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     std::vector<LogEntry> new_buffer(size);
 
     // Copy existing entries
@@ -159,6 +160,7 @@ void Logger::set_buffer_size(size_t size)
  */
 size_t Logger::get_buffer_size()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
 }
 
@@ -172,6 +174,7 @@ size_t Logger::get_buffer_size()
  */
 void Logger::set_custom_sink(CustomSink sink)
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = std::move(sink);
 }
 
@@ -180,6 +183,7 @@ void Logger::set_custom_sink(CustomSink sink)
  */
 void Logger::clear_custom_sink()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = nullptr;
 }
 
@@ -200,15 +204,20 @@ void Logger::log(LogLevel level, const std::string& message)
 
     LogEntry entry{std::chrono::system_clock::now(), level, message, std::this_thread::get_id()};
 
-    // Add to circular buffer
-    size_t index =
-        instance().write_index_.fetch_add(1, std::memory_order_relaxed) % instance().buffer_.size();
-    instance().buffer_[index] = entry;
+    // Add to circular buffer. The sink is copied so that it can be called without the lock held.
+    CustomSink sink;
+    {
+        std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+        size_t index = instance().write_index_.fetch_add(1, std::memory_order_relaxed) %
+                       instance().buffer_.size();
+        instance().buffer_[index] = entry;
+        sink = instance().custom_sink_;
+    }
 
     // Call custom sink if set
-    if (instance().custom_sink_) {
+    if (sink) {
         try {
-            instance().custom_sink_(entry);
+            sink(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
@@ -253,6 +262,7 @@ std::string Logger::dump_to_file(const std::string& filepath)
     file << "=========\n\n";
     file << "Platform: " << platform_str << " | Compiler: " << compiler_str << "\n\n";
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t total_entries = std::min(current_write, instance().buffer_.size());
     size_t start_index =
-- 
2.43.0


From c2c072bff24e0e3e1f2516579c0b143f4fdc0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 003/151] fix: keep exactly one name per registered scene
 object

---
 include/huira/scene/name_registry.hpp      |  1 +
 include/huira_impl/scene/name_registry.ipp | 31 +++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..dd11c48 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -28,6 +28,7 @@ class NameRegistry {
     auto begin() const { return objects_.begin(); }
     auto end() const { return objects_.end(); }
 
+    bool contains(const std::shared_ptr<T>& object) const;
     std::shared_ptr<T> lookup(const std::string& name) const;
 
   private:
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..2ef626a 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -16,6 +16,10 @@ namespace huira {
 template <typename T>
 void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 {
+    if (contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " already exists in the scene");
+    }
+
     if (name.empty()) {
         name = object->type() + "." + std::to_string(object->id());
     }
@@ -25,6 +29,7 @@ void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 
     name_registry_[name] = object;
     object->name_ = name;
+    object->set_scene_owned(true);
 
     HUIRA_LOG_INFO("Scene - Added: " + object->get_info());
 }
@@ -57,18 +62,38 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
-    std::string old_name = object->name();
+    if (!contains(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
+    }
+
+    if (name.empty()) {
+        name = object->type() + "." + std::to_string(object->id());
+    }
 
-    if (new_name == old_name) {
+    std::string old_name = object->name();
+    if (name == old_name) {
         return;
     }
 
+    std::string new_name = make_unique_name_(name);
+
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
     object->name_ = new_name;
 }
 
+/**
+ * @brief Check whether an object is currently registered.
+ * @param object Shared pointer to object
+ * @return bool True if the object is registered under its own name
+ */
+template <typename T>
+bool NameRegistry<T>::contains(const std::shared_ptr<T>& object) const
+{
+    auto it = name_registry_.find(object->name());
+    return it != name_registry_.end() && it->second == object;
+}
+
 /**
  * @brief Lookup an object by name.
  * @param name Name to search for
-- 
2.43.0


From 482eff171e1e7067d678e6ce36b8d6c527f79207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 004/151] fix: deleting nodes and assets works and retires
 everything below

---
 include/huira/assets/model.hpp          |  1 +
 include/huira/scene/frame_node.hpp      |  2 ++
 include/huira_impl/scene/frame_node.ipp | 19 ++++++++++++++++++-
 include/huira_impl/scene/scene.ipp      |  5 +++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..2473366 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -61,6 +61,7 @@ class Model : public SceneObject<Model<TSpectral>> {
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
     friend class ModelLoader<TSpectral>;
+    friend class Scene<TSpectral>;
     friend class SceneView<TSpectral>;
 };
 
diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index 3777212..10f5847 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -64,6 +64,8 @@ class FrameNode : public Node<TSpectral> {
   protected:
     std::vector<std::shared_ptr<Node<TSpectral>>> children_;
 
+    static void retire_(const std::shared_ptr<Node<TSpectral>>& node);
+
     bool position_must_be_spice_() const override;
     bool rotation_must_be_spice_() const override;
 
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..eb89fa9 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,11 +55,28 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
+        retire_(child);
         children_.erase(it);
     }
 }
 
+/**
+ * @brief Mark a node and everything below it as no longer owned by the scene.
+ * @param node Node being deleted
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::retire_(const std::shared_ptr<Node<TSpectral>>& node)
+{
+    for (const auto& child : node->get_children()) {
+        retire_(child);
+    }
+
+    if (node->scene_ != nullptr && node->scene_->node_registry_.contains(node)) {
+        node->scene_->node_registry_.remove(node);
+    }
+    node->set_scene_owned(false);
+}
+
 /**
  * @brief Create a new Instance leaf node for a primitive and attach it to this FrameNode.
  * @param primitive Primitive pointer
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..f84b55a 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1149,6 +1149,11 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
-- 
2.43.0


From 78384d4425ef6c99b29e5907ef5b185c2c314ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 005/151] fix: refuse rotation matrices that are not finite

---
 include/huira_impl/core/rotation.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/rotation.ipp b/include/huira_impl/core/rotation.ipp
index 42329bc..da888cd 100644
--- a/include/huira_impl/core/rotation.ipp
+++ b/include/huira_impl/core/rotation.ipp
@@ -531,12 +531,17 @@ void Rotation<T>::set_matrix_(Mat3<T> matrix)
 {
     constexpr T loose_epsilon = static_cast<T>(1e-3);
     T det = glm::determinant(matrix);
-    if (std::fabs(det - 1.0) > loose_epsilon) {
+    if (!(std::fabs(det - 1.0) <= loose_epsilon)) {
         HUIRA_THROW_ERROR(
             "Rotation matrix must have a determinant close to 1. Given matrix has determinant: " +
             std::to_string(det));
     }
-    this->matrix_ = orthonormalize_(matrix);
+    Mat3<T> orthonormal = orthonormalize_(matrix);
+    if (!(std::fabs(glm::determinant(orthonormal) - 1.0) <= loose_epsilon)) {
+        HUIRA_THROW_ERROR("Rotation matrix could not be orthonormalized");
+    }
+
+    this->matrix_ = orthonormal;
 }
 
 /**
-- 
2.43.0


From 3057160d4e07849e878c60e591dedc9b023a05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 006/151] fix: Transform::to_matrix follows glm's column-major
 layout

---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..d127aed 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From 39d3dba332e1f7392476d42efdc93d21c68b60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 007/151] fix: Transform::inverse undoes non-uniform scale and
 rotating frames

---
 include/huira_impl/core/transform.ipp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index d127aed..4e53c37 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -116,14 +116,20 @@ Transform<T> Transform<T>::inverse() const
     // Inverse rotation
     result.rotation = rotation.inverse(); // conjugate for unit quaternion
 
-    // Inverse scale (assuming no zero components!)
-    result.scale = Vec3<T>{T(1) / scale.x, T(1) / scale.y, T(1) / scale.z};
+    // Inverse scale (assuming no zero components!), expressed along the parent axes because it is
+    // applied before the inverse rotation
+    Mat3<T> basis = rotation.local_to_parent_matrix();
+    for (int i = 0; i < 3; ++i) {
+        result.scale[i] = basis[0][i] * basis[0][i] / scale.x +
+                          basis[1][i] * basis[1][i] / scale.y + basis[2][i] * basis[2][i] / scale.z;
+    }
 
     // Inverse position: undo the rotation and scale
     result.position = result.rotation * (-position * result.scale);
 
-    // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    // Inverse velocity (in the new frame), including the sweep of the offset by the rotation
+    result.velocity = result.rotation *
+                      ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From 00b920207dc5853ec5d425b1b08317a59a34b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 008/151] fix: node getters and manual setters follow the
 latest source of each component

---
 include/huira_impl/scene/node.ipp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..0a44d00 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
@@ -223,6 +224,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
 
     this->local_transform_ = transform;
     this->body_frame_rates_ = false;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
 }
 
 /**
@@ -587,7 +592,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -612,7 +617,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -633,7 +638,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From d95ac839726882df60941eea6329f2892315ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 009/151] fix: callbacks respect SPICE-driven children like the
 manual setters

---
 include/huira_impl/scene/node.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 0a44d00..8ef57d3 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -292,6 +292,11 @@ template <IsSpectral TSpectral>
 template <IsPositionCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_position_callback(Args&&... args)
 {
+    if (this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set position callback when child has a spice_origin");
+    }
+
     position_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::POSITION_CALLBACK;
     this->spice_origin_ = "";
@@ -315,6 +320,11 @@ template <IsSpectral TSpectral>
 template <IsRotationCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_rotation_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set rotation callback when child has a spice_frame");
+    }
+
     rotation_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->rotation_mode_ = TransformMode::ROTATION_CALLBACK;
     this->spice_frame_ = "";
@@ -336,6 +346,11 @@ template <IsSpectral TSpectral>
 template <IsTransformCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_state_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_() || this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set state callback when child has a spice origin or frame");
+    }
+
     transform_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::TRANSFORM_CALLBACK;
     this->rotation_mode_ = TransformMode::TRANSFORM_CALLBACK;
-- 
2.43.0


From 542214e112566e877fb895a1c9b160d49f97f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 010/151] fix: Keplerian orbits pass the perifocal distance to
 CSPICE

---
 include/huira/scene/state_callbacks/keplerian_orbit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/state_callbacks/keplerian_orbit.hpp b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
index addb655..d7f7bd9 100644
--- a/include/huira/scene/state_callbacks/keplerian_orbit.hpp
+++ b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
@@ -18,7 +18,8 @@ struct KeplerianOrbitCallback : public PositionCallback {
                            const Time& epoch,
                            double mu)
     {
-        elements_[0] = a.to_si() / 1000.0;
+        // CSPICE conics expects the perifocal distance
+        elements_[0] = a.to_si() * (1.0 - e) / 1000.0;
         elements_[1] = e;
         elements_[2] = i.to_si();
         elements_[3] = raan.to_si();
-- 
2.43.0


From 82b6031b29d014534ce1b2ab351aad37bf90d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 011/151] fix: mixed-source nodes keep the SPICE velocity, body
 rates and state callbacks

---
 include/huira_impl/scene/node.ipp | 45 ++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 8ef57d3..308c77e 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -485,24 +485,40 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     // Mixed case - Step 1:
     Transform<double> local{};
-    if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
+    Transform<double> spice_state{};
+    if (position_mode_ == TransformMode::TRANSFORM_CALLBACK ||
+        rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        // One component has been taken over by another source since the callback was set
+        transform_callback_->evaluate(t_emit);
+    }
+    if (position_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        local.position = transform_callback_->state.position;
+        local.velocity = transform_callback_->state.velocity;
+    } else if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
         // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        spice_state.position = pos;
+        spice_state.velocity = vel;
+        Transform<double> relative = parent_ssb.inverse() * spice_state;
+        local.position = relative.position;
+        local.velocity = relative.velocity;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
         local.velocity = pos.velocity;
     }
 
-    if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        local.rotation = transform_callback_->state.rotation;
+        local.angular_velocity = transform_callback_->state.angular_velocity;
+    } else if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        spice_state.rotation = rotation;
+        spice_state.angular_velocity = ang_vel;
+        Transform<double> relative = parent_ssb.inverse() * spice_state;
+        local.rotation = relative.rotation;
+        local.angular_velocity = relative.angular_velocity;
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
@@ -524,6 +540,15 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
     local.scale = this->get_static_scale();
 
     Transform<double> ssb_state = parent_ssb * local;
+    if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
+        // SPICE already gives the state relative to the SSB
+        ssb_state.position = spice_state.position;
+        ssb_state.velocity = spice_state.velocity;
+    }
+    if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
+        ssb_state.rotation = spice_state.rotation;
+        ssb_state.angular_velocity = spice_state.angular_velocity;
+    }
     return ssb_state;
 }
 
@@ -586,7 +611,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Composition expects the rate along the parent axes
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_at_time.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From 90a9891f0c65d5feb7b5510055e5a2a9232fdcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 012/151] fix: relativistic aberration keeps directions unit
 length

---
 include/huira_impl/core/physics.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..7e6d9b0 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,16 +249,17 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
-        //                             gamma * (1 + u . beta)
+        //    Formula: u_app = (u / gamma + beta + (gamma / (1+gamma)) * (u . beta) * beta)
+        //                     ------------------------------------------------------------
+        //                                         1 + u . beta
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
         // (u + beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
-        double den = gamma * (1.0 + u_dot_beta);
+        Vec3<double> num =
+            direction / gamma + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        double den = 1.0 + u_dot_beta;
 
         return num / den;
     } else {
-- 
2.43.0


From 0a29b999c2befb7f1feb1753bef368ff10303ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 013/151] fix: linspace and integrate accept zero or one sample

---
 include/huira_impl/core/physics.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index 7e6d9b0..bf26b4a 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -61,6 +61,13 @@ template <IsFloatingPoint T>
 std::vector<T> linspace(T min, T max, size_t N)
 {
     std::vector<T> output(N);
+    if (N == 0) {
+        return output;
+    }
+    if (N == 1) {
+        output[0] = min;
+        return output;
+    }
     T step = (max - min) / static_cast<T>(N - 1);
     for (size_t i = 0; i < N; ++i) {
         output[i] = min + (static_cast<T>(i) * step);
@@ -221,7 +228,7 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 inline double integrate(const std::vector<double>& x, const std::vector<double>& y)
 {
     double sum = 0.0;
-    for (size_t i = 0; i < x.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < x.size(); ++i) {
         double dx = x[i + 1] - x[i];
         double avg_y = 0.5 * (y[i] + y[i + 1]);
         sum += avg_y * dx;
-- 
2.43.0


From 28b62f7236bc67f47b0cb3567abf9ee8122434bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 014/151] fix: in-place quantity arithmetic refuses results
 that are not numbers

---
 include/huira/units/quantity.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/huira/units/quantity.hpp b/include/huira/units/quantity.hpp
index afed062..526b904 100644
--- a/include/huira/units/quantity.hpp
+++ b/include/huira/units/quantity.hpp
@@ -105,15 +105,13 @@ class Quantity {
     // Addition assignment
     constexpr Quantity& operator+=(const Quantity& other)
     {
-        value_ += other.value_;
-        return *this;
+        return *this = *this + other;
     }
 
     // Subtraction assignment
     constexpr Quantity& operator-=(const Quantity& other)
     {
-        value_ -= other.value_;
-        return *this;
+        return *this = *this - other;
     }
 
     // Scalar multiplication
@@ -134,16 +132,14 @@ class Quantity {
     template <IsNumeric T>
     constexpr Quantity& operator*=(T scalar)
     {
-        value_ *= static_cast<double>(scalar);
-        return *this;
+        return *this = *this * scalar;
     }
 
     // Scalar division assignment
     template <IsNumeric T>
     constexpr Quantity& operator/=(T scalar)
     {
-        value_ /= static_cast<double>(scalar);
-        return *this;
+        return *this = *this / scalar;
     }
 
     // Comparison operators
@@ -511,14 +507,12 @@ class Quantity<Dimensionless, Scale> {
 
     constexpr Quantity& operator+=(const Quantity& other)
     {
-        value_ += other.value_;
-        return *this;
+        return *this = *this + other;
     }
 
     constexpr Quantity& operator-=(const Quantity& other)
     {
-        value_ -= other.value_;
-        return *this;
+        return *this = *this - other;
     }
 
     template <IsNumeric T>
@@ -536,15 +530,13 @@ class Quantity<Dimensionless, Scale> {
     template <IsNumeric T>
     constexpr Quantity& operator*=(T scalar)
     {
-        value_ *= static_cast<double>(scalar);
-        return *this;
+        return *this = *this * scalar;
     }
 
     template <IsNumeric T>
     constexpr Quantity& operator/=(T scalar)
     {
-        value_ /= static_cast<double>(scalar);
-        return *this;
+        return *this = *this / scalar;
     }
 
     constexpr bool operator==(const Quantity& other) const { return value_ == other.value_; }
-- 
2.43.0


From 9d041ee6c3322feaba5e88de2a75f09459aebbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 015/151] fix: spectral quantities print the SI value their
 unit label states

---
 include/huira_impl/units/spectral_quantity.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/units/spectral_quantity.ipp b/include/huira_impl/units/spectral_quantity.ipp
index 6a279d0..0e98b99 100644
--- a/include/huira_impl/units/spectral_quantity.ipp
+++ b/include/huira_impl/units/spectral_quantity.ipp
@@ -68,11 +68,12 @@ template <IsDimensionality Dim, typename Scale, IsSpectral TSpectral>
 std::string SpectralQuantity<Dim, Scale, TSpectral>::to_string() const
 {
     std::string result = "SpectralQuantity[" + Dim::to_si_string() + "](";
+    const TSpectral spectrum_si = to_si();
     for (std::size_t i = 0; i < TSpectral::size(); ++i) {
         if (i > 0) {
             result += ", ";
         }
-        result += std::to_string(value_[i]);
+        result += std::to_string(spectrum_si[i]);
     }
     result += ")";
     return result;
-- 
2.43.0


From 9a27f08ffcc6e40ceba9018f391bfa31fc72c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 016/151] fix: a mile is exactly 1609.344 m

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From cccb543b2ceafcb5863a5a10282fdeaaa5c1861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 017/151] fix: spectra built from a short list have no
 indeterminate bins

---
 include/huira_impl/core/spectral_bins.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..2406f63 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -40,6 +40,7 @@ constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> in
     if (init.size() == 1) {
         data_.fill(*init.begin());
     } else {
+        data_.fill(0.0f);
         std::copy(init.begin(),
                   std::next(init.begin(), static_cast<std::ptrdiff_t>(std::min(init.size(), N))),
                   data_.begin());
-- 
2.43.0


From 2ad33439b0193d2ef7d6db447ef3b45b52ec6c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 018/151] fix: scaling a spectrum in place by one of its own
 bins

---
 include/huira_impl/core/spectral_bins.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 2406f63..3c36361 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -453,8 +453,9 @@ template <std::size_t N, auto... Args>
 template <typename U>
 constexpr SpectralBins<N, Args...>& SpectralBins<N, Args...>::operator+=(const U& scalar)
 {
+    const float value = static_cast<float>(scalar); // the scalar may be one of our own bins
     for (std::size_t i = 0; i < N; ++i) {
-        data_[i] += static_cast<float>(scalar);
+        data_[i] += value;
     }
     return *this;
 }
@@ -463,8 +464,9 @@ template <std::size_t N, auto... Args>
 template <typename U>
 constexpr SpectralBins<N, Args...>& SpectralBins<N, Args...>::operator-=(const U& scalar)
 {
+    const float value = static_cast<float>(scalar); // the scalar may be one of our own bins
     for (std::size_t i = 0; i < N; ++i) {
-        data_[i] -= static_cast<float>(scalar);
+        data_[i] -= value;
     }
     return *this;
 }
@@ -473,8 +475,9 @@ template <std::size_t N, auto... Args>
 template <typename U>
 constexpr SpectralBins<N, Args...>& SpectralBins<N, Args...>::operator*=(const U& scalar)
 {
+    const float value = static_cast<float>(scalar); // the scalar may be one of our own bins
     for (std::size_t i = 0; i < N; ++i) {
-        data_[i] *= static_cast<float>(scalar);
+        data_[i] *= value;
     }
     return *this;
 }
@@ -483,8 +486,9 @@ template <std::size_t N, auto... Args>
 template <typename U>
 constexpr SpectralBins<N, Args...>& SpectralBins<N, Args...>::operator/=(const U& scalar)
 {
+    const float value = static_cast<float>(scalar); // the scalar may be one of our own bins
     for (std::size_t i = 0; i < N; ++i) {
-        data_[i] /= static_cast<float>(scalar);
+        data_[i] /= value;
     }
     return *this;
 }
-- 
2.43.0


From e2a15a3d08ca33ed5893f298a59b987881501769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 019/151] fix: RGB conversion compares the whole RGB band, not
 the red bin alone

---
 include/huira_impl/core/spectral_bins.ipp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 3c36361..3bd47d4 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -802,10 +802,25 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         return rgb;
     } else {
         // Determine overlap between TSpectral's full range and RGB's full range
-        constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
-        constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
-        constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
+        // (bins may be listed in any order)
+        constexpr auto lowest = [](const auto& bins) {
+            double value = bins[0].min_wavelength;
+            for (const Bin& bin : bins) {
+                value = std::min(value, bin.min_wavelength);
+            }
+            return value;
+        };
+        constexpr auto highest = [](const auto& bins) {
+            double value = bins[0].max_wavelength;
+            for (const Bin& bin : bins) {
+                value = std::max(value, bin.max_wavelength);
+            }
+            return value;
+        };
+        constexpr double spectral_min = lowest(TSpectral::get_all_bins());
+        constexpr double spectral_max = highest(TSpectral::get_all_bins());
+        constexpr double rgb_min = lowest(RGB::get_all_bins());  // 380nm (blue bin min)
+        constexpr double rgb_max = highest(RGB::get_all_bins()); // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
         constexpr double overlap_max = std::min(spectral_max, rgb_max);
-- 
2.43.0


From 2687dd0b42b045ce04d86594938f4ab66402ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 020/151] fix: sampled spectra refuse wavelengths that are not
 numbers

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 3bd47d4..2eed5db 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -95,7 +95,7 @@ SpectralBins<N, Args...>::integrate_over_data(const std::vector<double>& wavelen
             "SpectralBins::integrate_over_data: wavelengths and values must not be empty");
     }
     for (std::size_t k = 1; k < wavelengths.size(); ++k) {
-        if (wavelengths[k] <= wavelengths[k - 1]) {
+        if (!(wavelengths[k] > wavelengths[k - 1])) {
             HUIRA_THROW_ERROR(
                 "SpectralBins::integrate_over_data: wavelengths must be strictly ascending");
         }
-- 
2.43.0


From 9cb424c7750403193e49f1b16ac73a428c76f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 021/151] fix: the V-band response accepts a single sample

---
 include/huira_impl/core/physics.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index bf26b4a..84b4c2f 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -114,11 +114,10 @@ TSpectral black_body(double temperature, std::size_t steps)
 inline std::vector<double> johnson_vband_approximation(std::size_t N, std::vector<double>& lambda)
 {
     std::vector<double> efficiency(N);
-    lambda.resize(N);
 
     double lambda_min = 350e-9; // Start of visual range
     double lambda_max = 850e-9; // End of visual range
-    double step = (lambda_max - lambda_min) / static_cast<double>(N - 1);
+    lambda = linspace(lambda_min, lambda_max, N);
 
     // Standard Gaussian parameters for V-band
     double mu = 551e-9;
@@ -126,8 +125,7 @@ inline std::vector<double> johnson_vband_approximation(std::size_t N, std::vecto
     double two_sigma_sq = 2.0 * sigma * sigma;
 
     for (std::size_t i = 0; i < N; ++i) {
-        double l = lambda_min + static_cast<double>(i) * step;
-        lambda[i] = l;
+        double l = lambda[i];
 
         // Simple Gaussian profile: exp( - (x-mu)^2 / 2sigma^2 )
         double diff = l - mu;
-- 
2.43.0


From b4df560b7022e230e22623610d19c6e00e1ad6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 022/151] fix: interval samples reach the end for any number of
 samples

---
 include/huira/core/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/core/interval.hpp b/include/huira/core/interval.hpp
index 3de0e45..2f2ed47 100644
--- a/include/huira/core/interval.hpp
+++ b/include/huira/core/interval.hpp
@@ -83,7 +83,7 @@ struct Interval {
             return {this->center()};
         } else {
             std::vector<Time> result(N);
-            units::Second dt = (this->end - this->start) / static_cast<float>(N - 1);
+            units::Second dt = (this->end - this->start) / static_cast<double>(N - 1);
             for (std::size_t i = 0; i < N; ++i) {
                 result[i] = start + (i * dt);
             }
-- 
2.43.0


From fa834dad92b532edc86d760ca84ed6aee2ddebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 023/151] fix: SPICE calls are serialised as their
 documentation promises

---
 include/huira_impl/core/spice.ipp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..710e3ee 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -14,6 +14,13 @@
 namespace fs = std::filesystem;
 
 namespace huira::spice {
+// CSPICE keeps its state, pending errors included, in process-wide variables: one call at a time.
+inline std::recursive_mutex& spice_mutex()
+{
+    static std::recursive_mutex mutex;
+    return mutex;
+}
+
 inline void check_spice_error()
 {
     if (!failed_c()) {
@@ -38,6 +45,8 @@ inline void check_spice_error()
 template <typename Func, typename... Args>
 auto call_spice(Func func, Args&&... args)
 {
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex());
+
     // Initialize error handling on first call
     static bool initialized = []() {
         SpiceChar action[] = "RETURN";
@@ -100,6 +109,8 @@ inline void furnsh_relative_to_file(const fs::path& kernel_path)
         ~DirectoryGuard() { fs::current_path(original); }
     };
 
+    // The working directory belongs to the whole process as well
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex());
     DirectoryGuard guard;
     fs::current_path(kernel_path.parent_path());
     call_spice([&]() { furnsh_c(kernel_path.filename().string().c_str()); });
@@ -128,6 +139,7 @@ inline void ensure_lsk_loaded()
         return;
     }
     std::call_once(lsk_init_flag, []() {
+        std::lock_guard<std::recursive_mutex> lock(spice_mutex());
         // Save current error action and set to RETURN mode
         SpiceChar oldAction[16];
         erract_c("GET", sizeof(oldAction), oldAction);
@@ -340,6 +352,7 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
     SpiceDouble matrix[3][3];
     SpiceDouble angular_velocity[3];
 
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex());
     // Get state transformation matrix (includes rotation + derivatives)
     call_spice(sxform_c, FROM.c_str(), TO.c_str(), et, state_xform);
 
-- 
2.43.0


From 7b8c760b6c4b792fdfb7831650a4046ed330b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 024/151] fix: the leap-second probe ignores errors left by
 other code

---
 include/huira_impl/core/spice.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 710e3ee..294ac58 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -151,6 +151,11 @@ inline void ensure_lsk_loaded()
         SpiceChar none[] = "NONE";
         errprt_c("SET", 0, none);
 
+        // An error left pending by other code must not fail the test below
+        if (failed_c()) {
+            reset_c();
+        }
+
         // Test if an LSK is already loaded
         SpiceDouble et;
         str2et_c("2000-001T12:00:00", &et);
-- 
2.43.0


From afb867b11732cd6fe56ceb5235ffec490a419c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 025/151] fix: Image::at refuses coordinates left of or above
 the image

---
 include/huira_impl/images/image.ipp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..f1818af 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -326,11 +326,13 @@ template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    // Compared before the conversion, which is undefined for values an int cannot hold
+    if (!(pixel.x >= 0.0f && pixel.x < static_cast<float>(resolution_.width) && pixel.y >= 0.0f &&
+          pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
@@ -347,11 +349,13 @@ template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    // Compared before the conversion, which is undefined for values an int cannot hold
+    if (!(pixel.x >= 0.0f && pixel.x < static_cast<float>(resolution_.width) && pixel.y >= 0.0f &&
+          pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
-- 
2.43.0


From b615a261c9f6ff124cdbcfa685cbb895ec401807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 026/151] fix: image sizes beyond int and negative sizes

---
 include/huira_impl/images/image.ipp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index f1818af..16d124b 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -9,6 +9,15 @@
 #include "fftw3.h"
 
 namespace huira {
+// Number of pixels of an image; negative sizes are refused and the product cannot overflow an int.
+inline std::size_t image_pixel_count(int width, int height)
+{
+    if (width < 0 || height < 0) {
+        HUIRA_THROW_ERROR("Image - width and height cannot be negative");
+    }
+    return static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
+}
+
 
 /**
  * @brief Default constructor creating an empty image.
@@ -27,7 +36,7 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(image_pixel_count(resolution.width, resolution.height)), resolution_{resolution}
 {
 }
 
@@ -41,7 +50,7 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(image_pixel_count(resolution.width, resolution.height), fill_value),
       resolution_{resolution}
 {
 }
@@ -56,7 +65,7 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(image_pixel_count(width, height)), resolution_{width, height}
 {
 }
 
@@ -71,7 +80,7 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(image_pixel_count(width, height), fill_value), resolution_{width, height}
 {
 }
 
@@ -581,7 +590,8 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
 }
 
 /**
-- 
2.43.0


From 394f03a567b5e93cf47d752b3d266fc02d8632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 027/151] fix: texture coordinates far away or not finite stay
 inside the image

---
 include/huira_impl/images/image.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 16d124b..de6ed33 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -606,6 +606,10 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    // Not a number, or infinitely far away where the mode is periodic: there is no such place
+    if (std::isnan(coord) || (W != WrapMode::Clamp && std::isinf(coord))) {
+        return 0.0f;
+    }
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
@@ -615,11 +619,9 @@ float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
         }
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
-        coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        coord = std::fmod(std::fabs(coord), 2.0f * max);
+        if (coord >= max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From 49fc595f063222cd5c2738beb9b2da3d2f49a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 028/151] fix: bilinear samples of integer images are rounded,
 not truncated

---
 include/huira_impl/images/image.ipp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index de6ed33..b10c022 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -446,10 +446,16 @@ PixelT Image<PixelT>::sample_bilinear(float u, float v) const
     const PixelT& p11 = data_[to_linear(x1, y1)];
 
     if constexpr (std::is_arithmetic_v<PixelT>) {
-        float result = static_cast<float>(p00) * (1.0f - fx) * (1.0f - fy) +
-                       static_cast<float>(p10) * fx * (1.0f - fy) +
-                       static_cast<float>(p01) * (1.0f - fx) * fy +
-                       static_cast<float>(p11) * fx * fy;
+        // Double keeps every 32-bit integer exact
+        const double wx = static_cast<double>(fx);
+        const double wy = static_cast<double>(fy);
+        double result = static_cast<double>(p00) * (1.0 - wx) * (1.0 - wy) +
+                        static_cast<double>(p10) * wx * (1.0 - wy) +
+                        static_cast<double>(p01) * (1.0 - wx) * wy +
+                        static_cast<double>(p11) * wx * wy;
+        if constexpr (std::is_integral_v<PixelT>) {
+            result = std::round(result);
+        }
         return static_cast<PixelT>(result);
     } else if constexpr (is_vec3_v<PixelT>) {
         using S = typename Traits::Scalar;
-- 
2.43.0


From e18b19743940d4212b99749e6e048b5301681b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 029/151] fix: convolution with small kernels mirrors the
 kernel like the FFT path

---
 include/huira_impl/images/image.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index b10c022..b1dad49 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -649,12 +649,13 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                // Convolution, not correlation: the kernel is mirrored, as in convolve_fft_
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From 5340b49d708f114230391c2fce9863c732020352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 030/151] fix: convolution keeps the image's bit depth

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index b1dad49..cebe198 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -666,7 +666,7 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         }
     }
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 
 template <IsImagePixel PixelT>
@@ -777,6 +777,6 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     fftwf_free(freq_a);
     fftwf_free(freq_b);
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 } // namespace huira
-- 
2.43.0


From d7ceb6a7f04c9ef9afdf498ba895d2b6ac176093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 031/151] fix: integer pixels are rounded and saturated for
 every input

---
 .../huira_impl/images/io/convert_pixel.ipp    | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..2725737 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,4 +1,6 @@
+#include <cmath>
 #include <limits>
+#include <type_traits>
 
 #include "huira/concepts/numeric_concepts.hpp"
 #include "huira/concepts/pixel_concepts.hpp"
@@ -96,23 +98,32 @@ float integer_to_float(T value, float min_range, float max_range)
     return min_range + normalized * (max_range - min_range);
 }
 
+// Maps [0, 1] onto the whole range of T, rounding to nearest.  Out-of-range values saturate and
+// NaN becomes the lowest value: converting them directly would be undefined.
+template <IsInteger T>
+T normalized_to_integer(float normalized)
+{
+    if (!(normalized > 0.0f)) {
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) {
+        return std::numeric_limits<T>::max();
+    }
+    const auto type_min = static_cast<long double>(std::numeric_limits<T>::min());
+    const auto type_max = static_cast<long double>(std::numeric_limits<T>::max());
+    const long double scaled = static_cast<long double>(normalized) * (type_max - type_min);
+    return static_cast<T>(std::floor(type_min + scaled + 0.5L));
+}
+
 template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-    return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
+    return normalized_to_integer<T>((value - min_range) / (max_range - min_range));
 }
 
 template <IsSignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
-    float type_min = static_cast<float>(std::numeric_limits<T>::min());
-    float type_max = static_cast<float>(std::numeric_limits<T>::max());
-
-    float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
-
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    return normalized_to_integer<T>((value - min_range) / (max_range - min_range));
 }
 } // namespace huira
-- 
2.43.0


From ad9398e12af4342f1c3453bd489c0529afe71f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 032/151] fix: depth maps of a single depth are not NaN

---
 include/huira/images/color_map.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/huira/images/color_map.hpp b/include/huira/images/color_map.hpp
index 51f9b4a..b7ed359 100644
--- a/include/huira/images/color_map.hpp
+++ b/include/huira/images/color_map.hpp
@@ -26,7 +26,7 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
     float max_depth = 0.f;
     for (std::size_t i = 0; i < depth.size(); ++i) {
         float d = depth[i];
-        if (std::isinf(d)) {
+        if (!std::isfinite(d)) {
             continue;
         }
         if (d < min_depth) {
@@ -38,11 +38,13 @@ inline Image<huira::RGB> depth_map(Image<float> depth)
     }
 
     for (std::size_t i = 0; i < depth.size(); ++i) {
-        if (std::isinf(depth[i])) {
+        if (!std::isfinite(depth[i])) {
             output[i] = huira::RGB{1, 1, 1};
             continue;
         }
-        float d = 0.8f * (depth[i] - min_depth) / (max_depth - min_depth);
+        // A single depth has no range to spread over
+        float range = max_depth - min_depth;
+        float d = range > 0.f ? 0.8f * (depth[i] - min_depth) / range : 0.f;
         output[i] = huira::RGB{d, d, d};
     }
     return output;
-- 
2.43.0


From d6175dde99a08920c040efd7fb51d75185990c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 033/151] fix: malformed BMP headers are refused instead of
 read out of bounds

---
 include/huira_impl/images/io/bmp_io.ipp | 33 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..1462aa0 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (dib_size > size - 14) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,12 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    // The smallest 32-bit integer has no positive counterpart
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,30 +109,34 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
+    // Divide rather than multiply: the product of corrupt dimensions may overflow
+    if (pixel_offset > size || (size - pixel_offset) / row_stride < static_cast<std::size_t>(height)) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+                          std::to_string(height) + " rows of " + std::to_string(row_stride) +
+                          " bytes at offset " + std::to_string(pixel_offset) + ", have " +
+                          std::to_string(size) + ")");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
-            std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
-                static_cast<std::size_t>(out_channels);
+            std::size_t src_idx =
+                static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
+            std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                                   static_cast<std::size_t>(x)) *
+                                  static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
             raw_data[dst_idx + 0] = src_row[src_idx + 2]; // R
-- 
2.43.0


From 3858bbe90db325a01c57917f79f219345fdd7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 034/151] fix: BMP bit field masks select the channels

---
 include/huira_impl/images/io/bmp_io.ipp | 36 +++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 1462aa0..b4bb92c 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -93,6 +93,32 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    // With BI_BITFIELDS the masks say which byte holds which channel; they follow a 40-byte header
+    // and are part of a longer one
+    std::size_t r_byte = 2, g_byte = 1, b_byte = 0, a_byte = 3;
+    if (compression == 3) {
+        if (bits_per_pixel != 32 || size < 14 + 40 + 12) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP bit field masks");
+        }
+        auto mask_byte = [&](std::size_t offset) -> std::size_t {
+            uint32_t mask;
+            std::memcpy(&mask, &dib[offset], sizeof(uint32_t));
+            for (std::size_t byte = 0; byte < 4; ++byte) {
+                if (mask == (0xFFu << (8 * byte))) {
+                    return byte;
+                }
+            }
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Unsupported BMP bit field mask");
+        };
+        r_byte = mask_byte(40);
+        g_byte = mask_byte(44);
+        b_byte = mask_byte(48);
+        if (r_byte == g_byte || g_byte == b_byte || b_byte == r_byte) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Overlapping BMP bit field masks");
+        }
+        a_byte = 6 - r_byte - g_byte - b_byte;
+    }
+
     // The smallest 32-bit integer has no positive counterpart
     if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
@@ -138,13 +164,13 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                                    static_cast<std::size_t>(x)) *
                                   static_cast<std::size_t>(out_channels);
 
-            // BMP stores BGR(A), convert to RGB(A)
-            raw_data[dst_idx + 0] = src_row[src_idx + 2]; // R
-            raw_data[dst_idx + 1] = src_row[src_idx + 1]; // G
-            raw_data[dst_idx + 2] = src_row[src_idx + 0]; // B
+            // BMP stores BGR(A) unless its masks say otherwise, convert to RGB(A)
+            raw_data[dst_idx + 0] = src_row[src_idx + r_byte]; // R
+            raw_data[dst_idx + 1] = src_row[src_idx + g_byte]; // G
+            raw_data[dst_idx + 2] = src_row[src_idx + b_byte]; // B
 
             if (has_alpha) {
-                raw_data[dst_idx + 3] = src_row[src_idx + 3]; // A
+                raw_data[dst_idx + 3] = src_row[src_idx + a_byte]; // A
             }
         }
     }
-- 
2.43.0


From 6fbf3b5ff498fc004991f75bbf89e431cb9afae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 035/151] fix: malformed TGA files are refused instead of read
 or written out of bounds

---
 include/huira_impl/images/io/tga_io.ipp | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..25b93d5 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -90,6 +91,26 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(static_cast<int>(image_type)) + ")");
     }
 
+    if (width == 0 || height == 0) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Invalid TGA dimensions (" + std::to_string(width) +
+                          " x " + std::to_string(height) + ")");
+    }
+
+    // Validate the pixel layout: the decoding below relies on it
+    bool depth_ok;
+    if (is_color_mapped) {
+        depth_ok = (pixel_depth == 8 || pixel_depth == 16) && color_map_type == 1 &&
+                   (cm_entry_size == 24 || cm_entry_size == 32);
+    } else if (is_gray) {
+        depth_ok = (pixel_depth == 8);
+    } else {
+        depth_ok = (pixel_depth == 24 || pixel_depth == 32);
+    }
+    if (!depth_ok) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+
     // Current read position in buffer
     std::size_t pos = 18;
 
@@ -168,7 +189,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                     ++pixels_decoded;
                 }
             } else {
-                // Raw packet: 'count' literal pixel values
+                // Raw packet: 'count' literal pixel values, of which the image may need fewer
+                count = static_cast<int>(
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded));
                 std::size_t bytes_to_read = static_cast<std::size_t>(count) * index_bytes;
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
@@ -211,6 +234,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Pixel refers to a missing color map entry");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 1390deb61f64225a0e7836ebf44c6b252db8428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 036/151] fix: TGA files stored right to left are not mirrored

---
 include/huira_impl/images/io/tga_io.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 25b93d5..6cc9a05 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -79,6 +79,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     int width = static_cast<int>(width_u16);
     int height = static_cast<int>(height_u16);
     bool top_origin = (descriptor & 0x20) != 0;
+    bool right_origin = (descriptor & 0x10) != 0;
 
     // Validate image type
     bool is_rle = (image_type == 9 || image_type == 10 || image_type == 11);
@@ -218,9 +219,10 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         int src_y = top_origin ? y : (height - 1 - y);
 
         for (int x = 0; x < width; ++x) {
+            int src_x = right_origin ? (width - 1 - x) : x;
             std::size_t src_pixel =
                 static_cast<std::size_t>(src_y) * static_cast<std::size_t>(width) +
-                static_cast<std::size_t>(x);
+                static_cast<std::size_t>(src_x);
             std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
                                    static_cast<std::size_t>(x)) *
                                   static_cast<std::size_t>(out_channels);
-- 
2.43.0


From 2a0daed6d23b6883ac4ff5ecec611417f6d6b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 037/151] fix: HDR files stored bottom up or right to left are
 not mirrored

---
 include/huira_impl/images/io/hdr_io.ipp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..4346dca 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -166,14 +166,17 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         return false;
     };
 
+    bool bottom_up = false;
+    bool right_to_left = false;
     if (parse_resolution("-Y", "+X")) {
         /* Standard top-to-bottom, left-to-right */
     } else if (parse_resolution("+Y", "+X")) {
-        /* Bottom-to-top variant */
+        bottom_up = true;
     } else if (parse_resolution("-Y", "-X")) {
-        /* Right-to-left variant */
+        right_to_left = true;
     } else if (parse_resolution("+Y", "-X")) {
-        /* Both flipped */
+        bottom_up = true;
+        right_to_left = true;
     } else {
         HUIRA_THROW_ERROR("read_hdr_raw_ - Unsupported resolution format: \"" + line + "\"");
     }
@@ -258,9 +261,9 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
-                              3;
+            std::size_t row = static_cast<std::size_t>(bottom_up ? height - 1 - y : y);
+            std::size_t col = static_cast<std::size_t>(right_to_left ? width - 1 - x : x);
+            std::size_t dst = (row * static_cast<std::size_t>(width) + col) * 3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
         }
-- 
2.43.0


From 9d57ed189d0f3d51edcb543ede2dc5280b50c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 038/151] fix: HDR dimensions the data cannot fill are refused
 before allocating

---
 include/huira_impl/images/io/hdr_io.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 4346dca..55944d6 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
@@ -186,6 +187,15 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(height) + ")");
     }
 
+    // A scanline takes at least 4 bytes per pixel, or run-length encoded 4 bytes and, per channel,
+    // 2 bytes for every 127 pixels: do not allocate an image the data cannot fill
+    std::size_t flat_bytes = static_cast<std::size_t>(width) * 4;
+    std::size_t rle_bytes = 4 + 8 * ((static_cast<std::size_t>(width) + 126) / 127);
+    std::size_t min_bytes = std::min(flat_bytes, rle_bytes);
+    if ((cur.size - cur.pos) / min_bytes < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_hdr_raw_ - Data truncated in pixel data");
+    }
+
     // Decode scanlines
     std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
     std::vector<float> raw_data(num_pixels * 3);
-- 
2.43.0


From ca5bc0c244d52e0d2d17360cd20a2fae4a420701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 039/151] fix: narrow HDR pixels are not taken for run-length
 markers

---
 include/huira_impl/images/io/hdr_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 55944d6..4c58a8f 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -210,7 +210,8 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                               std::to_string(y));
         }
 
-        bool is_new_rle = (header[0] == 2 && header[1] == 2 &&
+        // Run-length encoding exists for widths from 8 to 32767 only: elsewhere this is a pixel
+        bool is_new_rle = (width >= 8 && width <= 32767 && header[0] == 2 && header[1] == 2 &&
                            ((static_cast<int>(header[2]) << 8) | header[3]) == width);
 
         if (is_new_rle) {
-- 
2.43.0


From 4c192fc4988803d611761ef0928726eb556361be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 040/151] fix: TGA dimensions the data cannot fill are refused
 before allocating

---
 include/huira_impl/images/io/tga_io.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 6cc9a05..9ae7cdc 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -165,7 +165,11 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     std::vector<unsigned char> pixel_indices;
 
     if (is_rle) {
-        // RLE decode
+        // RLE decode. A packet holds at most 128 pixels: do not allocate an image the data cannot fill
+        std::size_t min_packets = (num_pixels + 127) / 128;
+        if ((size - pos) / (1 + index_bytes) < min_packets) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Data truncated in RLE data");
+        }
         pixel_indices.resize(num_pixels * index_bytes);
         std::size_t pixels_decoded = 0;
 
-- 
2.43.0


From 0bb59b3303d0018ca7bb27d74b42841d80166634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 041/151] fix: TIFF pixels are rounded, not truncated, when
 written

---
 include/huira_impl/images/io/tiff_io.ipp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..c1b5bd0 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -693,16 +693,13 @@ inline void write_image_tiff(const fs::path& filepath,
             std::size_t offset = x * 3 * bytes_per_sample;
 
             if (bundle.bit_depth == 8) {
-                scanline[offset + 0] =
-                    static_cast<uint8_t>(std::clamp(pixel[0] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 1] =
-                    static_cast<uint8_t>(std::clamp(pixel[1] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 2] =
-                    static_cast<uint8_t>(std::clamp(pixel[2] * 255.0f, 0.0f, 255.0f));
+                scanline[offset + 0] = float_to_integer<uint8_t>(pixel[0]);
+                scanline[offset + 1] = float_to_integer<uint8_t>(pixel[1]);
+                scanline[offset + 2] = float_to_integer<uint8_t>(pixel[2]);
             } else {
-                uint16_t r = static_cast<uint16_t>(std::clamp(pixel[0] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t g = static_cast<uint16_t>(std::clamp(pixel[1] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t b = static_cast<uint16_t>(std::clamp(pixel[2] * 65535.0f, 0.0f, 65535.0f));
+                uint16_t r = float_to_integer<uint16_t>(pixel[0]);
+                uint16_t g = float_to_integer<uint16_t>(pixel[1]);
+                uint16_t b = float_to_integer<uint16_t>(pixel[2]);
                 std::memcpy(&scanline[offset + 0], &r, 2);
                 std::memcpy(&scanline[offset + 2], &g, 2);
                 std::memcpy(&scanline[offset + 4], &b, 2);
@@ -765,10 +762,9 @@ inline void write_image_tiff(const fs::path& filepath,
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
 
             if (bundle.bit_depth == 8) {
-                scanline[x] = static_cast<uint8_t>(std::clamp(pixel * 255.0f, 0.0f, 255.0f));
+                scanline[x] = float_to_integer<uint8_t>(pixel);
             } else {
-                uint16_t value =
-                    static_cast<uint16_t>(std::clamp(pixel * 65535.0f, 0.0f, 65535.0f));
+                uint16_t value = float_to_integer<uint16_t>(pixel);
                 std::memcpy(&scanline[x * 2], &value, 2);
             }
         }
-- 
2.43.0


From 0ec2fd37b20aedd9e33b3db006a60cb49ac6d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 042/151] fix: spectral images can be written as TIFF

---
 include/huira_impl/images/io/tiff_io.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index c1b5bd0..bb4475a 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -792,6 +792,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    ImageBundle<float> mono_bundle(bundle, std::move(mono_image));
+    write_image_tiff(filepath, mono_bundle, description, artist);
 }
 } // namespace huira
-- 
2.43.0


From 0dfea46830ed03c6ae858116a2608e94d8f2aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 043/151] fix: image writes that cannot complete are reported

---
 include/huira_impl/images/io/jpeg_io.ipp |  4 ++--
 include/huira_impl/images/io/png_io.ipp  |  5 ++++-
 include/huira_impl/images/io/tiff_io.ipp | 12 ++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..e524ed4 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -289,10 +289,10 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
 #endif
 
     std::size_t written = fwrite(jpeg_buf, 1, jpeg_size, fp);
-    fclose(fp);
+    bool closed = (fclose(fp) == 0);
     tjFree(jpeg_buf);
 
-    if (written != jpeg_size) {
+    if (written != jpeg_size || !closed) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to write complete JPEG data: " +
                           filepath.string());
     }
diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..b475763 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -644,7 +644,10 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
 
     png_write_end(png_ptr, nullptr);
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(fp);
+    if (fclose(fp) != 0) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to write complete PNG data: " +
+                          filepath.string());
+    }
 }
 
 } // namespace huira
diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index bb4475a..6b3528d 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -710,6 +710,12 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    // Closing would write what is left too, but without reporting a failure
+    if (TIFFFlush(tif.get()) != 1) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write complete TIFF data: " +
+                          filepath.string());
+    }
 }
 /**
  * @brief Writes a monochrome float image to a TIFF file with optional metadata.
@@ -773,6 +779,12 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    // Closing would write what is left too, but without reporting a failure
+    if (TIFFFlush(tif.get()) != 1) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write complete TIFF data: " +
+                          filepath.string());
+    }
 }
 
 /**
-- 
2.43.0


From df69ed0462251d8aa4aeeee30532f9b944166dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 044/151] fix: damaged JPEG dimensions are refused before they
 overflow

---
 include/huira_impl/images/io/jpeg_io.ipp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index e524ed4..416b0e5 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -66,7 +66,16 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
 
     int pixel_format = force_gray ? TJPF_GRAY : TJPF_RGB;
     int channels = force_gray ? 1 : 3;
-    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width * height * channels));
+    std::size_t raw_size = static_cast<std::size_t>(width) * static_cast<std::size_t>(height) *
+                           static_cast<std::size_t>(channels);
+
+    // Do not allocate an image far larger than the data can possibly fill
+    if (raw_size / 65536 > size) {
+        tjDestroy(decompressor);
+        HUIRA_THROW_ERROR("read_jpeg_raw_ - Data truncated (" + std::to_string(width) + " x " +
+                          std::to_string(height) + " pixels)");
+    }
+    std::vector<unsigned char> raw_data(raw_size);
 
     if (tjDecompress2(decompressor,
                       data,
-- 
2.43.0


From fdafaf4b0ce7479800fe4b11e4c0a080614be047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 045/151] fix: damaged PNG files do not leak or exhaust memory

---
 include/huira_impl/images/io/png_io.ipp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index b475763..14793c8 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -166,6 +166,10 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
         HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
     }
 
+    // Declared before setjmp so that they are destroyed when libpng jumps back
+    std::vector<png_byte> raw_data;
+    std::vector<png_bytep> row_pointers;
+
     if (setjmp(png_jmpbuf(png_ptr))) {
         png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
         HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
@@ -188,6 +192,11 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
 
     Resolution resolution{static_cast<int>(width), static_cast<int>(height)};
 
+    // Compression saves at most a factor of 1032: do not allocate an image the data cannot fill
+    if (png_get_rowbytes(png_ptr, info_ptr) * height / 1032 > size) {
+        png_error(png_ptr, "Not enough image data");
+    }
+
     // Expand palette to RGB(A)
     if (color_type == PNG_COLOR_TYPE_PALETTE) {
         png_set_palette_to_rgb(png_ptr);
@@ -230,8 +239,8 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
     }
 
     std::size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
-    std::vector<png_byte> raw_data(row_bytes * height);
-    std::vector<png_bytep> row_pointers(height);
+    raw_data.resize(row_bytes * height);
+    row_pointers.resize(height);
 
     for (png_uint_32 y = 0; y < height; ++y) {
         row_pointers[y] = raw_data.data() + y * row_bytes;
-- 
2.43.0


From 27925c799a7a3f0fcb1174fd0108a2fcafce29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 046/151] fix: damaged TIFF files are refused instead of read
 out of bounds

---
 include/huira_impl/images/io/tiff_io.ipp | 28 ++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 6b3528d..b781cb5 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -230,6 +230,14 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(height) + ")");
     }
 
+    // Do not allocate an image far larger than the data can possibly fill
+    if (width > static_cast<uint32_t>(std::numeric_limits<int>::max()) ||
+        height > static_cast<uint32_t>(std::numeric_limits<int>::max()) ||
+        static_cast<uint64_t>(width) * height / 65536 > size) {
+        HUIRA_THROW_ERROR("read_tiff_raw_ - Data truncated (" + std::to_string(width) + " x " +
+                          std::to_string(height) + " pixels)");
+    }
+
     // Validate sample format
     bool is_float = (sample_format == SAMPLEFORMAT_IEEEFP);
 
@@ -335,6 +343,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bits_per_sample) / 8;
 
+    // The buffers libtiff fills must hold all samples, which subsampled images do not store
+    std::size_t bytes_per_pixel =
+        bytes_per_sample * (planar_config == PLANARCONFIG_CONTIG ? num_channels : 1);
+
     bool is_tiled = TIFFIsTiled(tif.get()) != 0;
 
     if (is_tiled) {
@@ -343,12 +355,18 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         TIFFGetField(tif.get(), TIFFTAG_TILELENGTH, &tile_height);
 
         tsize_t tile_size = TIFFTileSize(tif.get());
+        if (tile_size <= 0 || tile_width == 0 || tile_height == 0 ||
+            static_cast<std::size_t>(tile_size) / tile_width / tile_height < bytes_per_pixel) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported tile layout");
+        }
         std::vector<unsigned char> tile_buf(static_cast<std::size_t>(tile_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0) < 0) {
+                        HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile");
+                    }
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -376,7 +394,9 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch) < 0) {
+                            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile");
+                        }
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
@@ -401,6 +421,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     } else {
         // Stripped storage
         tsize_t scanline_size = TIFFScanlineSize(tif.get());
+        if (scanline_size <= 0 ||
+            static_cast<std::size_t>(scanline_size) / width < bytes_per_pixel) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported scanline layout");
+        }
         std::vector<unsigned char> scanline_buf(static_cast<std::size_t>(scanline_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
-- 
2.43.0


From b472545324578a2b8c4c1ed9fc3757abd0baf170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 047/151] fix: truncated palette TIFF files are refused instead
 of filled with zeros

---
 include/huira_impl/images/io/tiff_io.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index b781cb5..ca95855 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -267,7 +267,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         std::vector<uint32_t> rgba_data(num_pixels);
 
         if (!TIFFReadRGBAImageOriented(
-                tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 0)) {
+                tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 1)) {
             HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read palette TIFF via RGBA");
         }
 
-- 
2.43.0


From 043f5281246871840b10d7170454297b04277a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 048/151] fix: FITS writes that cannot complete are reported

---
 include/huira_impl/images/io/fits_io.ipp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..a5e488e 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -46,6 +46,15 @@ struct FitsFile {
         }
     }
 
+    // Closing writes whatever is still buffered, so it can fail as well.
+    void close(const std::string& context)
+    {
+        int status = 0;
+        fits_close_file(fptr, &status);
+        fptr = nullptr;
+        fits_check(status, context);
+    }
+
     FitsFile() = default;
     FitsFile(const FitsFile&) = delete;
     FitsFile& operator=(const FitsFile&) = delete;
@@ -670,6 +679,16 @@ inline void write_image_fits(const fs::path& filepath,
     long fpixel[2] = {1, 1};
     fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
+
+    LONGLONG data_end = 0;
+    fits_get_hduaddrll(ff.fptr, nullptr, nullptr, &data_end, &status);
+    detail::fits_check(status, "get data address");
+    ff.close("close " + filepath.string());
+
+    // CFITSIO does not report every failure to write its last buffer.
+    if (fs::file_size(filepath) < static_cast<std::uintmax_t>(data_end)) {
+        HUIRA_THROW_ERROR("write_image_fits - Could not write all of " + filepath.string());
+    }
 }
 
 } // namespace huira
-- 
2.43.0


From 8ce30664995e9483548f918f2c0d955e00a3c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 049/151] fix: integer FITS images are unsigned over their
 documented range and rounded

---
 include/huira_impl/images/io/fits_io.ipp | 92 +++++++++++++++---------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index a5e488e..e1f55ae 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -405,28 +405,44 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
     return m;
 }
 
-// Maximum ADU value for the full range of a given BITPIX.
-inline double bitpix_max(int bitpix)
+// Unsigned 16- and 32-bit pixels are stored as signed values plus BZERO.
+inline int fits_image_type(int bit_depth)
 {
-    switch (bitpix) {
-    case 8:
-        return 255.0;
+    switch (bit_depth) {
     case 16:
-        return 32767.0;
+        return USHORT_IMG;
     case 32:
+        return ULONG_IMG;
+    default:
+        return bit_depth;
+    }
+}
+
+// Maximum ADU value for the full range of a given (equivalent) image type.
+inline double bitpix_max(int type)
+{
+    switch (type) {
+    case BYTE_IMG:
+        return 255.0;
+    case SHORT_IMG:
+        return 32767.0;
+    case USHORT_IMG:
+        return 65535.0;
+    case LONG_IMG:
         return 2147483647.0;
+    case ULONG_IMG:
+        return 4294967295.0;
     default:
         return 1.0;
     }
 }
 
+// The stored value of 0 ADU, which is reserved for undefined pixels if there are any.
 inline long fits_blank_value(int bit_depth)
 {
     switch (bit_depth) {
-    case 8:
-        return 0; // reserve 0; clamp valid pixels to [1, 255]
     case 16:
-        return -32768; // signed min, outside valid ADU range
+        return -32768;
     case 32:
         return -2147483648L;
     default:
@@ -486,7 +502,8 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     long fpixel[2] = {1, 1};
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
+    float undefined = std::numeric_limits<float>::quiet_NaN();
+    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
@@ -506,7 +523,13 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
             // Infer sensor bit depth from SATURATE  (e.g. 4095 → 12)
             inferred_sensor_bits = static_cast<int>(std::round(std::log2(divisor + 1.0)));
         } else {
-            divisor = detail::bitpix_max(bitpix);
+            int type = bitpix;
+            fits_get_img_equivtype(ff.fptr, &type, &status);
+            detail::fits_check(status, "get image type");
+            divisor = detail::bitpix_max(type);
+            if (divisor == 1.0) {
+                divisor = detail::bitpix_max(bitpix); // scaled by other keywords
+            }
         }
 
         const float inv = 1.0f / static_cast<float>(divisor);
@@ -582,7 +605,7 @@ inline void write_image_fits(const fs::path& filepath,
     //         fits_write_pix(fptr, TFLOAT, fpixel, w*h, plane_data, &status);
     //     }
 
-    fits_create_img(ff.fptr, bit_depth, 2, naxes, &status);
+    fits_create_img(ff.fptr, detail::fits_image_type(bit_depth), 2, naxes, &status);
     detail::fits_check(status, "create image HDU");
 
     // --- Determine ADU scaling for integer BITPIX ---
@@ -595,7 +618,8 @@ inline void write_image_fits(const fs::path& filepath,
     double adc_max = 0.0;
     if (is_integer) {
         adc_max =
-            (sensor_bits > 0) ? (std::pow(2.0, sensor_bits) - 1.0) : detail::bitpix_max(bit_depth);
+            (sensor_bits > 0) ? (std::pow(2.0, sensor_bits) - 1.0)
+                              : detail::bitpix_max(detail::fits_image_type(bit_depth));
     }
 
     // --- Write metadata ---
@@ -618,36 +642,34 @@ inline void write_image_fits(const fs::path& filepath,
 
     // --- Prepare pixel buffer (flip to FITS bottom-up order) ---
     const long npixels = static_cast<long>(w) * h;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
-    float actual_min = std::numeric_limits<float>::max();
-    float actual_max = -std::numeric_limits<float>::max();
+    double actual_min = std::numeric_limits<double>::max();
+    double actual_max = -std::numeric_limits<double>::max();
 
-    long blank_value = 0;
+    // Undefined pixels of an integer image take 0 ADU, which other pixels then avoid.
+    bool has_blank = false;
     if (is_integer) {
-        blank_value = detail::fits_blank_value(bit_depth);
+        for (int y = 0; y < h && !has_blank; ++y) {
+            for (int x = 0; x < w && !has_blank; ++x) {
+                has_blank = !std::isfinite(image(x, y));
+            }
+        }
     }
+    const double lo = has_blank ? 1.0 : 0.0;
+    const double hi = detail::bitpix_max(detail::fits_image_type(bit_depth));
 
-    bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        double* dst = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(w);
         for (int x = 0; x < w; ++x) {
-            float px = image(x, y);
+            double px = static_cast<double>(image(x, y));
 
             if (!std::isfinite(px)) {
-                if (is_integer) {
-                    dst[x] = static_cast<float>(blank_value);
-                    has_blank = true;
-                } else {
-                    dst[x] = std::numeric_limits<float>::quiet_NaN();
-                }
+                dst[x] = is_integer ? 0.0 : std::numeric_limits<double>::quiet_NaN();
             } else {
                 if (is_integer) {
-                    float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(px * static_cast<float>(adc_max),
-                                    lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                    px = std::clamp(std::round(px * adc_max), lo, hi);
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
@@ -657,7 +679,7 @@ inline void write_image_fits(const fs::path& filepath,
     }
 
     // --- Write DATAMIN / DATAMAX (actual values in the file) ---
-    {
+    if (actual_min <= actual_max) {
         if (!meta_copy.datamin) {
             detail::write_double_key(ff.fptr, "DATAMIN", actual_min, "Minimum pixel value", status);
         }
@@ -668,16 +690,16 @@ inline void write_image_fits(const fs::path& filepath,
     }
 
     if (is_integer && has_blank) {
-        long blank_val = static_cast<long>(blank_value);
+        long blank_val = detail::fits_blank_value(bit_depth);
         fits_update_key(
             ff.fptr, TLONG, "BLANK", &blank_val, "Value representing undefined pixels", &status);
         detail::fits_check(status, "write BLANK keyword");
     }
 
     // --- Write pixels ---
-    // CFITSIO converts TFLOAT → on-disk BITPIX, quantising as needed.
+    // CFITSIO converts TDOUBLE → on-disk BITPIX.
     long fpixel[2] = {1, 1};
-    fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
+    fits_write_pix(ff.fptr, TDOUBLE, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
 
     LONGLONG data_end = 0;
-- 
2.43.0


From bc2fe0f460ea9cd68ae968e630d7679b67cc7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 050/151] fix: every FITS keyword supplied is written and read
 back

---
 include/huira/images/io/fits_metadata.hpp | 4 +++-
 include/huira_impl/images/io/fits_io.ipp  | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/huira/images/io/fits_metadata.hpp b/include/huira/images/io/fits_metadata.hpp
index e0a50c0..400bb32 100644
--- a/include/huira/images/io/fits_metadata.hpp
+++ b/include/huira/images/io/fits_metadata.hpp
@@ -108,7 +108,9 @@ struct FitsMetadata {
     /// Returns true if any WCS field has been set.
     [[nodiscard]] bool has_wcs() const noexcept
     {
-        return crpix1.has_value() || crval1.has_value() || cdelt1.has_value() || !ctype1.empty();
+        return crpix1.has_value() || crpix2.has_value() || crval1.has_value() ||
+               crval2.has_value() || cdelt1.has_value() || cdelt2.has_value() || !ctype1.empty() ||
+               !ctype2.empty();
     }
 
     // TODO (multi-band):
diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index e1f55ae..962e46c 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -292,7 +292,7 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
 
         static const char* known[] = {
             "SIMPLE",   "BITPIX", "NAXIS",   "NAXIS1",  "NAXIS2",   "NAXIS3",   "EXTEND",
-            "BZERO",    "BSCALE", "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
+            "BZERO",    "BSCALE", "BLANK",   "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
             "DATE-OBS", "ORIGIN", "EXPTIME", "FILTER",  "BUNIT",    "DATAMIN",  "DATAMAX",
             "SATURATE", "CRPIX1", "CRPIX2",  "CRVAL1",  "CRVAL2",   "CDELT1",   "CDELT2",
             "CTYPE1",   "CTYPE2", "EQUINOX", "RADESYS", nullptr};
@@ -369,7 +369,12 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
                 status = 0;
                 fits_read_key_lng(fptr, kn.c_str(), &lv, nullptr, &status);
                 if (status == 0) {
-                    kw.value = static_cast<int>(lv);
+                    if (lv >= std::numeric_limits<int>::min() &&
+                        lv <= std::numeric_limits<int>::max()) {
+                        kw.value = static_cast<int>(lv);
+                    } else {
+                        kw.value = static_cast<double>(lv);
+                    }
                 }
                 break;
             }
-- 
2.43.0


From f8923dfa3563f79cebb7a7fae229bca38cf5b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 051/151] fix: FITS file names with brackets name files

---
 include/huira_impl/images/io/fits_io.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 962e46c..22d2704 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -464,7 +464,7 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     detail::FitsFile ff;
     int status = 0;
 
-    fits_open_file(&ff.fptr, filepath.string().c_str(), READONLY, &status);
+    fits_open_diskfile(&ff.fptr, filepath.string().c_str(), READONLY, &status);
     detail::fits_check(status, "open " + filepath.string());
 
     // --- Image dimensions & type ---
@@ -592,8 +592,11 @@ inline void write_image_fits(const fs::path& filepath,
     detail::FitsFile ff;
     int status = 0;
 
-    const std::string cfitsio_path = "!" + filepath.string();
-    fits_create_file(&ff.fptr, cfitsio_path.c_str(), &status);
+    // An existing file is replaced.
+    if (fs::is_regular_file(filepath)) {
+        fs::remove(filepath);
+    }
+    fits_create_diskfile(&ff.fptr, filepath.string().c_str(), &status);
     detail::fits_check(status, "create " + filepath.string());
 
     // --- Create image HDU ---
-- 
2.43.0


From 6905226daca329c9d285abad1e999ce66f6007a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 052/151] fix: FITS dimensions the file cannot fill are refused
 before allocating

---
 include/huira_impl/images/io/fits_io.ipp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 22d2704..d7ec518 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -493,6 +493,20 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
                           ").  Use read_image_fits_cube() for multi-band images.");
     }
 
+    constexpr long max_size = std::numeric_limits<int>::max();
+    if (naxes[0] < 1 || naxes[0] > max_size || naxes[1] < 1 || naxes[1] > max_size) {
+        HUIRA_THROW_ERROR("FITS file has invalid image dimensions: " + std::to_string(naxes[0]) +
+                          "x" + std::to_string(naxes[1]));
+    }
+
+    // Refuse dimensions the file cannot fill before allocating for them.
+    const long bytes_per_pixel = std::abs(bitpix) / 8;
+    if (!fits_is_compressed_image(ff.fptr, &status) &&
+        naxes[0] > ff.fptr->Fptr->filesize / naxes[1] / bytes_per_pixel) {
+        HUIRA_THROW_ERROR("FITS file is too short for its image dimensions: " +
+                          std::to_string(naxes[0]) + "x" + std::to_string(naxes[1]));
+    }
+
     const int width = static_cast<int>(naxes[0]);
     const int height = static_cast<int>(naxes[1]);
 
@@ -554,7 +568,8 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
 
     for (int y = 0; y < height; ++y) {
         const int fits_row = height - 1 - y;
-        const float* src = buffer.data() + static_cast<std::size_t>(fits_row * width);
+        const float* src =
+            buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(width);
         for (int x = 0; x < width; ++x) {
             image(x, y) = src[x];
         }
-- 
2.43.0


From 37728e881852307adbb1a64ac708fc0fada16fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 053/151] fix: star catalogues that cannot be written are
 reported

---
 include/huira_impl/stars/io/star_catalog.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..ee637dd 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -53,6 +53,10 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     // Write all star data
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write all stars to: " + filepath.string());
+    }
 
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
-- 
2.43.0


From 7241c89ab4bfcc8fb68a7feef5a779379463cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 054/151] fix: truncated or corrupt star catalogues are refused

---
 include/huira_impl/stars/io/star_catalog.ipp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index ee637dd..16f6eb3 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -72,6 +72,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Incomplete header: " + filepath.string());
+    }
     if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
@@ -84,6 +87,14 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
                           ").  Please re-generate.");
     }
 
+    // The file holds the header and exactly the stars it announces
+    in.seekg(0, std::ios::end);
+    const auto data_size = static_cast<std::uint64_t>(in.tellg()) - sizeof(HrscHeader);
+    if (!in || data_size % sizeof(StarData) != 0 ||
+        data_size / sizeof(StarData) != header.star_count) {
+        HUIRA_THROW_ERROR("StarCatalog - File is truncated or corrupt: " + filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
@@ -105,6 +116,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader)));
     in.read(reinterpret_cast<char*>(stars.data()),
             static_cast<std::streamsize>(low * sizeof(StarData)));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read stars from: " + filepath.string());
+    }
 
     StarCatalog star_catalog(stars);
     star_catalog.set_catalog_type(header.catalog_type);
-- 
2.43.0


From affc0dabbc4ffb9846180a27f6177eea0c656f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 055/151] fix: stars without a magnitude sort last

---
 include/huira/stars/io/star_data.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira/stars/io/star_data.hpp b/include/huira/stars/io/star_data.hpp
index bf2da54..39fd130 100644
--- a/include/huira/stars/io/star_data.hpp
+++ b/include/huira/stars/io/star_data.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <filesystem>
 #include <limits>
@@ -32,9 +33,12 @@ struct StarData {
     // Normalize the Epoch to J2000.0 using proper motion and epoch of observation (if provided)
     inline void normalize_epoch(double epochRA, double epochDEC);
 
-    // Allows sorting by magnitude:
+    // Allows sorting by magnitude (stars without a magnitude come last):
     bool operator<(const StarData& other) const
     {
+        if (std::isnan(visual_magnitude) || std::isnan(other.visual_magnitude)) {
+            return !std::isnan(visual_magnitude);
+        }
         return visual_magnitude < other.visual_magnitude;
     }
 };
-- 
2.43.0


From 026eedf437a24840576fe57a93ac72c7406d2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 056/151] fix: observed Tycho-2 positions are read from their
 own columns

---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..e4c4b18 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -89,19 +89,19 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 152-164 and 165-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star_data[i].RA = RA * PI<double>() / 180.;
                 star_data[i].DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From 7ffb7c1b16b796ac44ae1277c6968627380a3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 057/151] fix: Tycho-2 records do not depend on their
 neighbours or the last line ending

---
 include/huira_impl/stars/io/load_tycho2.ipp | 88 +++++++++++++--------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index e4c4b18..3954ad5 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -45,12 +45,20 @@ static double read_entry_(const std::string& line, std::size_t start, std::size_
     std::size_t last = field.find_last_not_of(" \t");
     field = field.substr(first, last - first + 1);
     try {
-        return std::stod(field);
+        double value = std::stod(field);
+        return std::isfinite(value) ? value : std::numeric_limits<double>::quiet_NaN();
     } catch (...) {
         return std::numeric_limits<double>::quiet_NaN();
     }
 }
 
+// An identifier of up to five digits, or -1 if there is none
+static int read_identifier_(const std::string& line, std::size_t start, std::size_t end)
+{
+    double value = read_entry_(line, start, end);
+    return value >= 0.0 && value <= 99999.0 ? static_cast<int>(value) : -1;
+}
+
 static bool is_valid_line_(const std::string& line)
 {
     // Data lines start with a digit (TYC1 number)
@@ -59,23 +67,29 @@ static bool is_valid_line_(const std::string& line)
 
 std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            // Each record starts from a blank star
+            StarData star;
+
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            int tyc1 = read_identifier_(line, 0, 4);
+            int tyc2 = read_identifier_(line, 5, 10);
+            int tyc3 = read_identifier_(line, 11, 12);
+            if (tyc1 < 0 || tyc2 < 0 || tyc3 < 0) {
+                continue;
+            }
+            star.id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                                     static_cast<uint16_t>(tyc2),
+                                     static_cast<uint8_t>(tyc3));
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -86,8 +100,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
             } else {
                 // Observed position at bytes 152-164 and 165-177
                 double RA = read_entry_(line, 152, 164);
@@ -95,8 +109,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
 
                 // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
@@ -114,14 +128,14 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(epochRA, epochDEC);
+            star.normalize_epoch(epochRA, epochDEC);
 
             // BT magnitude at bytes 110-116, VT at 123-129
             double BTmag = read_entry_(line, 110, 116);
@@ -129,34 +143,39 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 
 std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            // Each record starts from a blank star
+            StarData star;
+
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            int tyc1 = read_identifier_(line, 0, 4);
+            int tyc2 = read_identifier_(line, 5, 10);
+            int tyc3 = read_identifier_(line, 11, 12);
+            if (tyc1 < 0 || tyc2 < 0 || tyc3 < 0) {
+                continue;
+            }
+            star.id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
+                                     static_cast<uint16_t>(tyc2),
+                                     static_cast<uint8_t>(tyc3));
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
@@ -164,21 +183,21 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(RA) || std::isnan(DEC)) {
                 continue;
             }
-            star_data[i].RA = RA * PI<double>() / 180.;
-            star_data[i].DEC = DEC * PI<double>() / 180.;
+            star.RA = RA * PI<double>() / 180.;
+            star.DEC = DEC * PI<double>() / 180.;
 
             // Proper motion at bytes 42-49 and 50-57
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(1991.25f, 1991.25f);
+            star.normalize_epoch(1991.25f, 1991.25f);
 
             // BT magnitude at bytes 83-89, VT at 96-102
             double BTmag = read_entry_(line, 83, 89);
@@ -186,12 +205,11 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 } // namespace huira
-- 
2.43.0


From d5854af1ed2bb08724fe9bf1f12719eda8d4a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 058/151] fix: the distortion field covers the last pixel row
 and column

---
 include/huira_impl/cameras/camera_model.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..7c5ae24 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -490,8 +490,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -519,8 +519,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel) const
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / rx_;
+        float v = pixel[1] / ry_;
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -644,8 +644,10 @@ Vec3<TFloat> CameraModel<TSpectral>::pixel_to_direction_(const Pixel& pixel) con
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::compute_distortion_field_()
 {
+    // One node per pixel corner, so that the field covers the far edges of the sensor:
     Resolution res = sensor_->resolution();
-
+    res.x += 1;
+    res.y += 1;
     distortion_field_ = Image<Vec3<float>>(res, Vec3<float>{0, 0, 0});
 
     for (int x = 0; x < res.x; ++x) {
-- 
2.43.0


From b878c97872685b0c23c66f0c507e5245ae250884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 059/151] fix: depth of field focuses on a plane in front, with
 or without distortion

---
 include/huira_impl/cameras/camera_model.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7c5ae24..afa4258 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -502,8 +502,13 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
         Vec3<float> aperture_point{aperture_sample.x, aperture_sample.y, 0.f};
 
         if (!std::isinf(d_)) {
-            Vec3<float> focal_point = direction * d_;
+            // The focal plane is perpendicular to the optical axis:
+            Vec3<float> focal_point = direction * (d_ / std::abs(direction.z));
             direction = focal_point - aperture_point;
+            if (d_ < 0.f) {
+                // Focused behind the camera: rays diverge from the virtual focal point
+                direction = -direction;
+            }
         }
         origin = aperture_point;
     }
-- 
2.43.0


From c79e9a46fa947b60de2c3d999db7e363c9c7c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 060/151] fix: the view frustum spans the whole sensor

---
 include/huira_impl/cameras/camera_model.ipp | 47 ++++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index afa4258..9ab6b7e 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -734,37 +734,42 @@ void CameraModel<TSpectral>::compute_frustum_()
         ydir = Vec3<float>{0, -1, 0};
     }
 
-    // Initialize the frustum side planes:
+    // For each side, find the direction which reaches furthest beyond that side:
     Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
-
     Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
-
     Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
-
     Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
+    float left_slope = -std::numeric_limits<float>::infinity();
+    float right_slope = -std::numeric_limits<float>::infinity();
+    float top_slope = -std::numeric_limits<float>::infinity();
+    float bottom_slope = -std::numeric_limits<float>::infinity();
 
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
-        float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
+    auto update = [](const Vec3<float>& direction, float slope, Vec3<float>& extrema, float& max) {
+        if (slope > max) {
             extrema = direction;
-            min_dot = d;
+            max = slope;
         }
     };
+    auto update_all = [&](int i, int j) {
+        Vec3<float> direction = glm::normalize(
+            pixel_to_direction_<float>(Pixel{static_cast<float>(i), static_cast<float>(j)}));
+        float depth = glm::dot(direction, zdir);
+        float slope_x = glm::dot(direction, xdir) / depth;
+        float slope_y = glm::dot(direction, ydir) / depth;
+        update(direction, -slope_x, left_extrema, left_slope);
+        update(direction, slope_x, right_extrema, right_slope);
+        update(direction, -slope_y, top_extrema, top_slope);
+        update(direction, slope_y, bottom_extrema, bottom_slope);
+    };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    // Loop over the pixel corners along the border of the sensor:
+    for (int i = 0; i <= res.x; ++i) {
+        update_all(i, 0);
+        update_all(i, res.y);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 0; j <= res.y; ++j) {
+        update_all(0, j);
+        update_all(res.x, j);
     }
 
     // Form the frustum planes:
-- 
2.43.0


From b721a5eb6336dee65420f2f24dc426d5260fbf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 061/151] fix: distortion and axis convention changes update
 the derived camera data

---
 include/huira/cameras/camera_model.hpp      |  5 +--
 include/huira_impl/cameras/camera_model.ipp | 36 +++++++++++++++++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..8a80b7e 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion();
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +152,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true);
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
@@ -185,6 +185,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
 
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
+    void compute_projection_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 9ab6b7e..acc4216 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -63,8 +63,28 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_projection_();
+}
+
+/**
+ * @brief Remove the distortion model from the camera.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::delete_distortion()
+{
+    distortion_ = nullptr;
+    compute_projection_();
+}
+
+/**
+ * @brief Select the camera axis convention.
+ * @param value True for the Blender convention (-Z forward, +Y up), false for +Z forward, +Y down
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::use_blender_convention(bool value)
+{
+    blender_convention_ = value;
+    compute_projection_();
 }
 
 /**
@@ -614,6 +634,18 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    compute_projection_();
+}
+
+/**
+ * @brief Recompute everything derived from the intrinsics, distortion and axis convention.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::compute_projection_()
+{
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
-- 
2.43.0


From 8ad4bf5bfeb726295b542c2d29174332c173b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 062/151] fix: aperture kernels follow focal length, f-stop,
 sensor and aperture changes

---
 include/huira/cameras/camera_model.hpp        |  1 +
 .../huira_impl/cameras/apertures/aperture.ipp |  1 +
 include/huira_impl/cameras/camera_model.ipp   | 31 +++++++++++--------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index 8a80b7e..7651681 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -186,6 +186,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
     void compute_projection_();
+    void update_aperture_kernels_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index 298e915..f7c556a 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -24,6 +24,7 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     if (blur_radius_pixels < 0.5f) {
         // Blur is less than half a pixel - treat as in focus
         defocus_cache_.radius = 0.f;
+        defocus_cache_.half_extent = 0;
         defocus_cache_.banks = 0;
         defocus_cache_.dim = 0;
         defocus_cache_.kernels.clear();
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index acc4216..a1d8e15 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -43,12 +43,6 @@ void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
     }
 
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
 }
 
 /**
@@ -312,6 +306,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_aperture_kernels_();
 }
 
 /**
@@ -427,7 +422,6 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
         HUIRA_THROW_ERROR("CameraModel::set_focus_distance - Focus distance is too small");
     }
     d_ = focus_distance_;
-
     units::Meter pitch_x(sensor_->pixel_pitch().x);
     units::Meter pitch_y(sensor_->pixel_pitch().y);
     this->aperture_->build_defocus_kernel(
@@ -600,12 +594,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_aperture_kernels_();
 }
 
 /**
@@ -635,6 +624,22 @@ void CameraModel<TSpectral>::compute_intrinsics_()
     }
 
     compute_projection_();
+    update_aperture_kernels_();
+}
+
+/**
+ * @brief Rebuild the aperture PSF (if in use) and the defocus kernel for the current settings.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_aperture_kernels_()
+{
+    units::Meter f(focal_length_);
+    units::Meter px(sensor_->pixel_pitch().x);
+    units::Meter py(sensor_->pixel_pitch().y);
+    if (use_aperture_psf_) {
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    aperture_->build_defocus_kernel(this->get_diopters(), f, px, py, 16);
 }
 
 /**
-- 
2.43.0


From 0ab0d66691a2a1235c163bb7e6290d880ecc141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 063/151] fix: set_intrinsic_matrix reads the principal point
 from the third column

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index a1d8e15..839413d 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -242,8 +242,8 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
 {
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
-- 
2.43.0


From aa6e944fbc4e4cea384a38b19f1119fb8a31dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 064/151] fix: a new sensor gets its own principal point and
 focal scale

---
 include/huira_impl/cameras/camera_model.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 839413d..102f746 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -123,6 +123,9 @@ template <IsSensor<TSpectral> TSensor, typename... Args>
 void CameraModel<TSpectral>::set_sensor(Args&&... args)
 {
     sensor_ = std::make_unique<TSensor>(std::forward<Args>(args)...);
+    is_explicit_matrix_ = false;
+    cx_ = static_cast<float>(sensor_->resolution().x) * 0.5f;
+    cy_ = static_cast<float>(sensor_->resolution().y) * 0.5f;
     compute_intrinsics_();
 }
 
-- 
2.43.0


From 18f7f1610134f5e120e4d8384b8dd50ff2b2de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 065/151] fix: refused camera settings leave the camera
 unchanged

---
 include/huira_impl/cameras/camera_model.ipp | 103 ++++++++++++--------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 102f746..ed1f0e1 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,14 +33,14 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
-
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    const float f = focal_length.to_si_f();
+    if (f <= 0 || std::isinf(f) || std::isnan(f)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(f));
     }
+    is_explicit_matrix_ = false;
+    focal_length_ = f;
 
     compute_intrinsics_();
 }
@@ -147,15 +147,6 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
                                                          std::optional<float> cx,
                                                          std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (!pitch_y.has_value()) {
-        pitch_y = pitch_x;
-    }
-    sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -172,6 +163,19 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
                           "this intended for an off-axis projection.");
     }
 
+    const Resolution previous_resolution = sensor_->resolution();
+    sensor_->set_resolution(resolution);
+    try {
+        if (!pitch_y.has_value()) {
+            pitch_y = pitch_x;
+        }
+        sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
+    } catch (...) {
+        sensor_->set_resolution(previous_resolution);
+        throw;
+    }
+
+    is_explicit_matrix_ = false;
     cx_ = final_cx;
     cy_ = final_cy;
 
@@ -196,20 +200,6 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
                                                         std::optional<float> cx,
                                                         std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (height.has_value()) {
-        sensor_->set_sensor_size(width, height.value());
-    } else {
-        // If height is not provided, assume square pixels and compute height from width and
-        // resolution
-        float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
-        float pixel_size_y = pixel_size_x; // Square pixels
-        sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
-    }
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -226,6 +216,24 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
                           "this intended for an off-axis projection.");
     }
 
+    const Resolution previous_resolution = sensor_->resolution();
+    sensor_->set_resolution(resolution);
+    try {
+        if (height.has_value()) {
+            sensor_->set_sensor_size(width, height.value());
+        } else {
+            // If height is not provided, assume square pixels and compute height from width and
+            // resolution
+            float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
+            float pixel_size_y = pixel_size_x; // Square pixels
+            sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
+        }
+    } catch (...) {
+        sensor_->set_resolution(previous_resolution);
+        throw;
+    }
+
+    is_explicit_matrix_ = false;
     cx_ = final_cx;
     cy_ = final_cy;
 
@@ -268,20 +276,35 @@ void CameraModel<TSpectral>::set_intrinsics(float fx,
                                             const Resolution& resolution,
                                             units::Millimeter anchor_focal_length)
 {
-    is_explicit_matrix_ = true;
+    const float focal_length = anchor_focal_length.to_si_f();
+    if (!(focal_length > 0.f) || std::isinf(focal_length) || !(fx > 0.f) || std::isinf(fx) ||
+        !(fy > 0.f) || std::isinf(fy)) {
+        HUIRA_THROW_ERROR(
+            "CameraModel::set_intrinsics - Focal lengths must be positive finite values.");
+    }
+    if (!std::isfinite(cx) || !std::isfinite(cy)) {
+        HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
+    }
 
+    // Use the anchor to compute the pixel_pitch/size
+    units::Meter px(focal_length / fx);
+    units::Meter py(focal_length / fy);
+    const Resolution previous_resolution = sensor_->resolution();
+    sensor_->set_resolution(resolution);
+    try {
+        sensor_->set_pixel_pitch(px, py);
+        sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    } catch (...) {
+        sensor_->set_resolution(previous_resolution);
+        throw;
+    }
+
+    is_explicit_matrix_ = true;
     fx_ = fx;
     fy_ = fy;
     cx_ = cx;
     cy_ = cy;
-    sensor_->set_resolution(resolution);
-    focal_length_ = anchor_focal_length.to_si_f();
-
-    // Use the anchor to compute the pixel_pitch/size
-    units::Meter px(focal_length_ / fx_);
-    units::Meter py(focal_length_ / fy_);
-    sensor_->set_pixel_pitch(px, py);
-    sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    focal_length_ = focal_length;
 
     compute_intrinsics_();
 }
@@ -335,11 +358,11 @@ void CameraModel<TSpectral>::set_psf(Args&&... args)
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::use_aperture_psf(int radius, int banks)
 {
-    use_aperture_psf_ = true;
     units::Meter f(focal_length_);
     units::Meter px(sensor_->pixel_pitch().x);
     units::Meter py(sensor_->pixel_pitch().y);
     psf_ = aperture_->make_psf(f, px, py, radius, banks);
+    use_aperture_psf_ = true;
 }
 
 /**
@@ -594,6 +617,10 @@ float CameraModel<TSpectral>::get_projected_aperture_area(const Vec3<float>& dir
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_fstop(float fstop)
 {
+    if (!(fstop > 0.f) || std::isinf(fstop)) {
+        HUIRA_THROW_ERROR("CameraModel::set_fstop - F-stop must be a positive finite value: " +
+                          std::to_string(fstop));
+    }
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-- 
2.43.0


From 1c984755e80446c8b233deede89530b5a410aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 066/151] fix: OpenCV distortion adds only the displacement to
 the point

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..23b58ff 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From 4bf7b359db878f2046ed065608290a068540d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 067/151] fix: trajectory plane crossings are found for every
 curve and scale

---
 include/huira_impl/render/trajectory_arc.ipp | 151 ++++++++-----------
 1 file changed, 59 insertions(+), 92 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..68fee53 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -267,41 +267,35 @@ std::vector<float> TrajectoryArc::solve_linear_(float a, float b, float t_min, f
 std::vector<float>
 TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-
-    if (std::abs(a) < eps) {
+    constexpr double eps = 1e-10;
+    if (a == 0.0f) {
         return solve_linear_(b, c, t_min, t_max);
     }
 
-    float discriminant = b * b - 4.0f * a * c;
-    if (discriminant < 0.0f) {
+    const double ad = static_cast<double>(a);
+    const double bd = static_cast<double>(b);
+    const double cd = static_cast<double>(c);
+    const double lo = static_cast<double>(t_min);
+    const double hi = static_cast<double>(t_max);
+
+    const double discriminant = bd * bd - 4.0 * ad * cd;
+    if (discriminant < 0.0) {
         return {};
     }
 
-    std::vector<float> roots;
-    if (discriminant < eps) {
-        float t = -b / (2.0f * a);
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
-        }
-    } else {
-        float sqrt_d = std::sqrt(discriminant);
-        float q = -0.5f * (b + std::copysign(sqrt_d, b));
-        float t1 = q / a;
-        float t2 = c / q;
-
-        if (t1 > t2) {
-            std::swap(t1, t2);
-        }
+    const double q = -0.5 * (bd + std::copysign(std::sqrt(discriminant), bd));
+    double t1 = q / ad;
+    double t2 = (q != 0.0) ? cd / q : t1;
+    if (t1 > t2) {
+        std::swap(t1, t2);
+    }
 
-        if (t1 >= t_min - eps && t1 <= t_max + eps) {
-            roots.push_back(std::clamp(t1, t_min, t_max));
-        }
-        if (t2 >= t_min - eps && t2 <= t_max + eps) {
-            if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                roots.push_back(std::clamp(t2, t_min, t_max));
-            }
-        }
+    std::vector<float> roots;
+    if (t1 >= lo - eps && t1 <= hi + eps) {
+        roots.push_back(static_cast<float>(std::clamp(t1, lo, hi)));
+    }
+    if (t2 >= lo - eps && t2 <= hi + eps && t2 - t1 > eps) {
+        roots.push_back(static_cast<float>(std::clamp(t2, lo, hi)));
     }
     return roots;
 }
@@ -309,83 +303,56 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
 /**
  * @brief Solve a*t^3 + b*t^2 + c*t + d = 0 for roots in [t_min, t_max].
  *
- * Uses the depressed cubic (Cardano's method) for analytic solution.
+ * Splits the range at the stationary points and bisects each monotone piece.
  */
 std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
 {
-    constexpr float eps = 1e-10f;
-
-    if (std::abs(a) < eps) {
-        return solve_quadratic_(b, c, d, t_min, t_max);
+    const double ad = static_cast<double>(a);
+    const double bd = static_cast<double>(b);
+    const double cd = static_cast<double>(c);
+    const double dd = static_cast<double>(d);
+    auto f = [&](double t) { return ((ad * t + bd) * t + cd) * t + dd; };
+
+    // The cubic is monotone between its stationary points, so each interval between them holds at
+    // most one root, which is bracketed by a change of sign:
+    std::vector<double> bounds{static_cast<double>(t_min)};
+    for (float t : solve_quadratic_(3.0f * a, 2.0f * b, c, t_min, t_max)) {
+        bounds.push_back(static_cast<double>(t));
     }
-
-    float p = b / a;
-    float q = c / a;
-    float r = d / a;
-
-    float p2 = p * p;
-    float A = q - p2 / 3.0f;
-    float B = r - p * q / 3.0f + 2.0f * p2 * p / 27.0f;
-
-    float discriminant = -4.0f * A * A * A - 27.0f * B * B;
+    bounds.push_back(static_cast<double>(t_max));
 
     std::vector<float> roots;
-    float offset = -p / 3.0f;
-
-    if (discriminant > eps) {
-        float m = 2.0f * std::sqrt(-A / 3.0f);
-        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;
-
-        for (int k = 0; k < 3; ++k) {
-            float u = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f);
-            float t = u + offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        }
-    } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
+    auto add_root = [&roots](double t) {
+        const float root = static_cast<float>(t);
+        if (roots.empty() || root > roots.back()) {
+            roots.push_back(root);
         }
-
-        float t = u + offset;
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
+    };
+
+    for (std::size_t i = 0; i + 1 < bounds.size(); ++i) {
+        double lo = bounds[i];
+        double hi = bounds[i + 1];
+        const double f_lo = f(lo);
+        const double f_hi = f(hi);
+        if (f_lo == 0.0) {
+            add_root(lo);
         }
-    } else {
-        if (std::abs(B) < eps) {
-            float t = offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        } else {
-            float u1 = 3.0f * B / A;
-            float u2 = -u1 / 2.0f;
-
-            float t1 = u1 + offset;
-            float t2 = u2 + offset;
-
-            if (t1 >= t_min - eps && t1 <= t_max + eps) {
-                roots.push_back(std::clamp(t1, t_min, t_max));
-            }
-            if (t2 >= t_min - eps && t2 <= t_max + eps) {
-                if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                    roots.push_back(std::clamp(t2, t_min, t_max));
+        if ((f_lo < 0.0 && f_hi > 0.0) || (f_lo > 0.0 && f_hi < 0.0)) {
+            for (int k = 0; k < 50; ++k) {
+                const double mid = 0.5 * (lo + hi);
+                if ((f(mid) < 0.0) == (f_lo < 0.0)) {
+                    lo = mid;
+                } else {
+                    hi = mid;
                 }
             }
+            add_root(0.5 * (lo + hi));
         }
     }
-
-    std::sort(roots.begin(), roots.end());
+    if (f(bounds.back()) == 0.0) {
+        add_root(bounds.back());
+    }
     return roots;
 }
 
-- 
2.43.0


From 8f03c813c9b82a80bdaa8ce20115ae6165fa65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 068/151] fix: sensor readout without a sensor-response channel
 writes nothing

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..3295398 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -65,6 +65,9 @@ inline float noise_and_adc(float signal_e,
 template <IsSpectral TSpectral>
 void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second exposure_time) const
 {
+    if (!fb.has_received_power() || !fb.has_sensor_response()) {
+        return;
+    }
     Image<TSpectral>& received_power = fb.received_power();
     auto& output = fb.sensor_response();
     output.set_sensor_bit_depth(this->config_.bit_depth);
-- 
2.43.0


From d6feca2c94fb28f3a4b80f13330ea78c389677c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 069/151] fix: shot noise of a slightly negative signal is not
 NaN

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 3295398..669b2d6 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -35,7 +35,7 @@ inline float noise_and_adc(float signal_e,
 
     float bias = 0.f;
     if (config.simulate_noise) {
-        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(accumulated_e));
+        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(std::max(accumulated_e, 0.f)));
         accumulated_e += shot_dist(rng);
         accumulated_e += read_noise_dist(rng);
         bias = config.bias_level_dn;
-- 
2.43.0


From 8e47f43c98f83c3bc46999f19a64361db3c4a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 070/151] fix: a gain in dB that under- or overflows is refused

---
 include/huira/cameras/sensors/sensor_model.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/huira/cameras/sensors/sensor_model.hpp b/include/huira/cameras/sensors/sensor_model.hpp
index f036707..22c3eb8 100644
--- a/include/huira/cameras/sensors/sensor_model.hpp
+++ b/include/huira/cameras/sensors/sensor_model.hpp
@@ -55,7 +55,12 @@ struct SensorConfig {
             HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain in dB must be a finite value: " +
                               std::to_string(gain_db) + " dB");
         }
-        gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        const float new_gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        if (!(new_gain > 0.f) || std::isinf(new_gain)) {
+            HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain in dB is out of range: " +
+                              std::to_string(gain_db) + " dB");
+        }
+        gain = new_gain;
     }
     /**
      * @brief Returns the gain in dB for the sensor.
-- 
2.43.0


From eee0f356ff4491db1231a0ef82ebc3d3d30bfe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 071/151] fix: direct and indirect power have frame-buffer
 channels of their own

---
 include/huira/render/frame_buffer.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..4c21321 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -96,6 +96,12 @@ class FrameBuffer {
         if (has_world_normals()) {
             world_normals_.fill(Vec3<float>{0, 0, 0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
@@ -115,6 +121,8 @@ class FrameBuffer {
     Image<Vec3<float>> camera_normals_;
     Image<Vec3<float>> world_normals_;
 
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<TSpectral> received_power_;
     Image<SensorT> sensor_response_;
 
-- 
2.43.0


From f355eae02873897c5d40dc8d2aad12a21e6a4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 072/151] fix: disabling the sensor response keeps the received
 power

---
 include/huira/render/frame_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4c21321..f1476e0 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) {
+            enable_received_power(); // Sensor response requires received power
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
-- 
2.43.0


From d0c72aeda159eab0840e08a18e1d53bd6c321b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 073/151] fix: each path has its own shutter time

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..461ddf4 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -137,7 +137,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -180,6 +179,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
-- 
2.43.0


From c51cad6dc3d246270bab049088521ae320f5b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 074/151] fix: light sampling uses the tile sampler

---
 include/huira_impl/render/renderer.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 461ddf4..bb6ab08 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -232,7 +232,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -391,7 +391,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 56c9268fdbb581f2e5f569b92742f4bf8808f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 075/151] fix: pixels without a valid sample or surface are
 zero, not NaN

---
 include/huira_impl/render/renderer.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index bb6ab08..057114e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -520,13 +520,17 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
                             }
                         }
-                        float inv_spp = 1.0f / static_cast<float>(samples_taken);
+                        float inv_spp =
+                            samples_taken > 0 ? 1.0f / static_cast<float>(samples_taken) : 0.0f;
 
                         // Average over samples and write to frame buffer:
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
                         TSpectral direct_radiance = pixel_direct_radiance * inv_spp;
                         TSpectral indirect_radiance = pixel_indirect_radiance * inv_spp;
-                        Vec3<float> avg_camera_normals = glm::normalize(camera_normals * inv_spp);
+                        Vec3<float> avg_camera_normals{0};
+                        if (glm::length(camera_normals) > 0.0f) {
+                            avg_camera_normals = glm::normalize(camera_normals);
+                        }
 
                         if (frame_buffer.has_depth()) {
                             if (closest_depth < std::numeric_limits<float>::infinity()) {
-- 
2.43.0


From 912068be8f8f82c2af08d73dcde1740a6f04dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 076/151] fix: sensor noise of zero is allowed

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 669b2d6..1b3799a 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -18,7 +18,7 @@ namespace huira {
  * @param config Sensor configuration.
  * @param max_dn Maximum digital number (saturation level).
  * @param rng Random number generator.
- * @param read_noise_dist Normal distribution for read noise.
+ * @param read_noise_dist Unit normal distribution for read noise.
  * @return Normalized intensity in [0, 1].
  */
 template <IsSpectral TSpectral>
@@ -35,9 +35,10 @@ inline float noise_and_adc(float signal_e,
 
     float bias = 0.f;
     if (config.simulate_noise) {
-        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(std::max(accumulated_e, 0.f)));
-        accumulated_e += shot_dist(rng);
-        accumulated_e += read_noise_dist(rng);
+        // A standard deviation of zero is not allowed, so unit distributions are scaled:
+        std::normal_distribution<float> shot_dist(0.0f, 1.0f);
+        accumulated_e += std::sqrt(std::max(accumulated_e, 0.f)) * shot_dist(rng);
+        accumulated_e += config.read_noise * read_noise_dist(rng);
         bias = config.bias_level_dn;
     }
 
@@ -76,7 +77,7 @@ void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second
 
     // TODO Move this somewhere else?
     static std::mt19937 rng(1);
-    std::normal_distribution<float> read_noise_dist(0.0f, this->config_.read_noise);
+    std::normal_distribution<float> read_noise_dist(0.0f, 1.0f);
 
     const TSpectral photon_energy = TSpectral::photon_energies();
     float max_dn = std::pow(2.f, static_cast<float>(this->config_.bit_depth)) - 1.f;
-- 
2.43.0


From 6ee3fd0899d89d9f837c49762810f117639f6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 077/151] fix: a point source in view for part of the exposure
 gives part of its power

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 057114e..4f5e04d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -826,7 +826,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // fraction of the exposure, so weights sum to the time in view
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
-- 
2.43.0


From 29b095b96530abfb8aebe69896035f2b0f32c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 078/151] fix: point sources land on the pixel whose rays point
 at them

---
 include/huira_impl/render/renderer.ipp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 4f5e04d..4d71124 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -832,7 +832,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
                 Vec3<float> dir = arc.evaluate(params[k]);
                 const Pixel& p = pixels[k];
-                if (p.x < 0.f || p.x > res_x || p.y < 0.f || p.y > res_y) {
+                if (p.x < 0.f || p.x >= res_x || p.y < 0.f || p.y >= res_y) {
                     continue;
                 }
 
@@ -849,7 +849,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    int margin = stamp_radius + 1; // a source near the tile's edge may be centered outside it
 
     struct TileBuffer {
         Image<TSpectral> buf;
@@ -887,11 +887,12 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                 for (const auto& proj : bin) {
                     const auto& item = items[proj.item_idx];
-                    const Pixel& star_p = proj.projected;
+                    // Kernels are centered on pixel centers, at half-integer image coordinates:
+                    const Pixel star_p{proj.projected.x - 0.5f, proj.projected.y - 0.5f};
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        if (!std::isinf(depth_buffer(proj.projected))) {
                             unobstructed = false;
                         }
                     }
@@ -963,8 +964,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                             }
                         }
                     } else {
-                        int px = static_cast<int>(std::round(star_p.x));
-                        int py = static_cast<int>(std::round(star_p.y));
+                        int px = static_cast<int>(proj.projected.x);
+                        int py = static_cast<int>(proj.projected.y);
                         if (px >= local_x0 && px < local_x1 && py >= local_y0 && py < local_y1) {
                             local_buf(px - local_x0, py - local_y0) += power;
                         }
-- 
2.43.0


From 1dea86cca38816ce4b17529a70256c65a8364b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 079/151] fix: bodies hide point sources whether or not the
 depth channel is enabled

---
 include/huira_impl/render/renderer.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 4d71124..b398dec 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -32,6 +32,10 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
             "Renderer::render - Frame buffer resolution does not match camera resolution.");
     }
 
+    // Unresolved sources are hidden by resolved geometry, which needs the depth:
+    const bool depth_requested = frame_buffer.has_depth();
+    frame_buffer.enable_depth();
+
     frame_buffer.clear();
 
     Image<TSpectral> ray_traced_power = this->path_trace_(scene_view, frame_buffer);
@@ -41,6 +45,9 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
     if (frame_buffer.has_received_power()) {
         frame_buffer.received_power() = ray_traced_power + star_power;
     }
+    if (!depth_requested) {
+        frame_buffer.enable_depth(false);
+    }
 
     // Apply Veiling Glare
     if (camera->veiling_glare_enabled_) {
-- 
2.43.0


From fab8bb1db3276e8974fb98a031a4ec6eb56a4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 080/151] fix: an unresolved object in front of a body is not
 hidden by it

---
 include/huira_impl/render/renderer.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index b398dec..0abe0ce 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -598,15 +598,17 @@ template <IsSpectral TSpectral>
 struct RenderItem {
     RenderItem(TrajectoryArc set_arc,
                std::vector<TSpectral> set_irradiance,
-               int set_effective_radius)
+               int set_effective_radius,
+               float set_distance = std::numeric_limits<float>::infinity())
         : arc(std::move(set_arc)), irradiance(std::move(set_irradiance)),
-          effective_radius(set_effective_radius)
+          effective_radius(set_effective_radius), distance(set_distance)
     {
     }
 
     TrajectoryArc arc;
     std::vector<TSpectral> irradiance;
     int effective_radius;
+    float distance;
 
     TSpectral interpolate_irradiances(float t) const
     {
@@ -705,7 +707,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
             irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back(
+            {arc, irradiances, stamp_radius, glm::length(instance.transforms[0].position)});
     }
 
     if (items.empty()) {
@@ -899,7 +902,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(proj.projected))) {
+                        if (depth_buffer(proj.projected) < item.distance) {
                             unobstructed = false;
                         }
                     }
-- 
2.43.0


From 70eba851fd97392e9258da01a041ea58171c73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 081/151] fix: PSF convolution without a PSF does not crash

---
 include/huira_impl/render/renderer.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 0abe0ce..47e8101 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -582,7 +582,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
             }
         });
 
-    if (frame_buffer.has_received_power() && camera->convolve_psf_) {
+    if (frame_buffer.has_received_power() && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
@@ -1026,7 +1026,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                           }
                       });
 
-    if (use_defocus && camera->convolve_psf_) {
+    if (use_defocus && camera->convolve_psf_ && camera->has_psf()) {
         const Image<TSpectral>& psf = camera->get_psf_kernel(0.0f, 0.0f);
         received_power.convolve(psf);
     }
-- 
2.43.0


From 5970310b6c2c0fd13b5bcbb095ed7c81d3764065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 082/151] fix: world normals are rotated from camera to world

---
 include/huira_impl/scene/scene_view.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..f395bfa 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -62,7 +62,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(obs_ssb);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From f573481c2b658c2c3fdd8583b64e9f4c923ca72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 083/151] fix: lights seen through a delta surface keep their
 weight

---
 include/huira_impl/render/renderer.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 47e8101..2ab8d70 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -462,7 +462,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     Vec3<float> bounce_origin =
                                         offset_intersection_(isect.position, bounce_normal);
 
-                                    prev_bsdf_pdf = bs.is_delta ? 0.0f : bs.pdf;
+                                    prev_bsdf_pdf =
+                                        bs.is_delta ? std::numeric_limits<float>::infinity() : bs.pdf;
                                     prev_isect = shading_isect;
 
                                     throughput = throughput * bs.value;
-- 
2.43.0


From 282c53dd93fc78fc42221b876f796bf2922d5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 084/151] fix: light scattered in a medium is not counted twice

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2ab8d70..edd498a 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -261,8 +261,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             float phase_val =
                                                 opt_mi->phase_function->evaluate(opt_mi->wo, ls.wi);
 
+                                            float mis_weight = power_heuristic(ls.pdf, phase_val);
                                             TSpectral Ld = throughput * (ls.Li / ls.pdf) *
-                                                           phase_val * shadow_transmittance;
+                                                           phase_val * mis_weight *
+                                                           shadow_transmittance;
 
                                             if (bounce == 0) {
                                                 direct_radiance += Ld;
@@ -280,6 +282,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else {
-- 
2.43.0


From f8e5b0835f1c9883572b188c712b29b7cdf77f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 085/151] fix: geometry ids are those of the surface in view

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index edd498a..944dc1e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -348,7 +348,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     break;
                                 } else {
 
-                                    if (s == 0) {
+                                    if (s == 0 && bounce == 0) {
                                         geometry_id = hit.geom_id;
                                     }
 
-- 
2.43.0


From 2bc3f1a03471ea8e7bf26ebd8afbfae2bcb70435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 086/151] fix: a sample that is NaN in any channel is dropped

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 944dc1e..ec296ce 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -501,7 +501,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                             TSpectral sample_radiance = direct_radiance + indirect_radiance;
 
-                            if (std::isnan(sample_radiance[0])) {
+                            if (std::isnan(sample_radiance.total())) {
                                 continue;
                             }
 
-- 
2.43.0


From 3e1f306a0001b644419b0aa93b451637f18a4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 087/151] fix: depth behind a transparent surface is measured
 from the camera

---
 include/huira_impl/render/renderer.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index ec296ce..272e01b 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -201,6 +201,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Interaction<TSpectral> prev_isect;
 
                             MediumStack<TSpectral> medium_stack;
+                            float passed_distance = 0.0f; // through transparent surfaces
 
                             for (int bounce = 0; bounce < max_bounces_; ++bounce) {
                                 HitRecord hit = scene_view.intersect(ray, time);
@@ -376,6 +377,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                             medium_stack.toggle(batch.primitive.get());
 
+                                            passed_distance += hit.t;
                                             bounce--; // Don't count this towards bounce counts
                                             continue;
                                         }
@@ -390,7 +392,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     // Record primary ray info:
                                     if (bounce == 0) {
-                                        closest_depth = std::min(closest_depth, hit.t);
+                                        closest_depth =
+                                            std::min(closest_depth, passed_distance + hit.t);
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
-- 
2.43.0


From 0df9b4b1814a7956531c74258f043ac59a488d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 088/151] fix: hits are resolved with the instance transform
 that was intersected

---
 include/huira/scene/scene_view.hpp      |  7 +++--
 include/huira_impl/render/renderer.ipp  |  2 +-
 include/huira_impl/scene/scene_view.ipp | 34 ++++++++++++++++---------
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index 3cbd429..e84da50 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -53,13 +53,16 @@ class SceneView {
                                                    float time = 0.5f) const;
 
     [[nodiscard]] Interaction<TSpectral> resolve_hit(const Ray<TSpectral>& ray,
-                                                     const HitRecord& hit) const;
+                                                     const HitRecord& hit,
+                                                     float time = 0.5f) const;
 
     [[nodiscard]] std::vector<HitRecord> intersect(const std::vector<Ray<TSpectral>>& rays,
                                                    float time = 0.5f) const;
 
     [[nodiscard]] std::vector<Interaction<TSpectral>>
-    resolve_hits(const std::vector<Ray<TSpectral>>& rays, const std::vector<HitRecord>& hits) const;
+    resolve_hits(const std::vector<Ray<TSpectral>>& rays,
+                 const std::vector<HitRecord>& hits,
+                 float time = 0.5f) const;
 
     Interval get_exposure_interval() const { return exposure_interval_; }
     units::Second duration() const { return exposure_interval_.duration(); }
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 272e01b..fe95e19 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -354,7 +354,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     }
 
                                     // Resolve full shading data:
-                                    Interaction<TSpectral> isect = scene_view.resolve_hit(ray, hit);
+                                    Interaction<TSpectral> isect = scene_view.resolve_hit(ray, hit, time);
 
                                     // Look up mesh material:
                                     const auto& batch = scene_view.primitives_[mapping.batch_index];
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index f395bfa..d9a6838 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -1,3 +1,4 @@
+#include <array>
 #include <limits>
 #include <memory>
 #include <vector>
@@ -247,7 +248,7 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
             break;
         }
 
-        Interaction<TSpectral> isect = this->resolve_hit(current_ray, hit);
+        Interaction<TSpectral> isect = this->resolve_hit(current_ray, hit, time);
         const auto& mapping = instance_mappings_[hit.inst_id];
         const auto& batch = primitives_[mapping.batch_index];
         const auto* material = batch.primitive->material.get();
@@ -294,11 +295,13 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
  * @brief Resolve a hit record into a full interaction, including position, normals, UVs, etc.
  * @param ray The ray that caused the hit.
  * @param hit The hit record to resolve.
+ * @param time The time for motion blur at which the hit was found.
  * @return The resolved interaction.
  */
 template <IsSpectral TSpectral>
 Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& ray,
-                                                         const HitRecord& hit) const
+                                                         const HitRecord& hit,
+                                                         float time) const
 {
     Interaction<TSpectral> isect{};
 
@@ -309,21 +312,26 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     // Get the hit:
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
-    const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
 
-    isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+    // Instance transform at the time of the hit, exactly as used for the intersection:
+    std::array<float, 12> m;
+    rtcGetGeometryTransform(
+        rtcGetGeometry(tlas_, hit.inst_id), time, RTC_FORMAT_FLOAT3X4_COLUMN_MAJOR, m.data());
+    const Mat3<float> linear{m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]};
+    const Mat3<float> normal_matrix = glm::transpose(glm::inverse(linear));
+    const Vec3<float> translation{m[9], m[10], m[11]};
+
+    isect.position = linear * isect.position + translation;
+    isect.normal_g = glm::normalize(normal_matrix * hit.Ng);
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+    isect.normal_s = glm::normalize(normal_matrix * isect.normal_s);
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+    isect.tangent = glm::normalize(linear * isect.tangent);
+    isect.bitangent = glm::normalize(linear * isect.bitangent);
     if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
         isect.bitangent = -isect.bitangent;
     }
@@ -355,19 +363,21 @@ std::vector<HitRecord> SceneView<TSpectral>::intersect(const std::vector<Ray<TSp
  * @brief Resolve a batch of hit records into full interactions.
  * @param rays The rays that caused the hits.
  * @param hits The hit records to resolve.
+ * @param time The time for motion blur at which the hits were found.
  * @return A vector of resolved interactions.
  */
 template <IsSpectral TSpectral>
 std::vector<Interaction<TSpectral>>
 SceneView<TSpectral>::resolve_hits(const std::vector<Ray<TSpectral>>& rays,
-                                   const std::vector<HitRecord>& hits) const
+                                   const std::vector<HitRecord>& hits,
+                                   float time) const
 {
     std::vector<Interaction<TSpectral>> interactions(hits.size());
     tbb::parallel_for(tbb::blocked_range<size_t>(0, hits.size()),
                       [&](const tbb::blocked_range<size_t>& range) {
                           for (size_t i = range.begin(); i < range.end(); ++i) {
                               if (hits[i].hit()) {
-                                  interactions[i] = resolve_hit(rays[i], hits[i]);
+                                  interactions[i] = resolve_hit(rays[i], hits[i], time);
                               }
                           }
                       });
-- 
2.43.0


From 6b6a35924f93ab5958961bd71b56d5e9eccad262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 089/151] fix: resolving a hit on a light gives the point on
 the light

---
 include/huira_impl/scene/scene_view.ipp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index d9a6838..3ea786f 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -307,10 +307,6 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
 
     // Look up which mesh and instance this hit corresponds to:
     const auto& mapping = instance_mappings_[hit.inst_id];
-    const auto& batch = primitives_[mapping.batch_index];
-
-    // Get the hit:
-    batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
 
     // Instance transform at the time of the hit, exactly as used for the intersection:
@@ -318,9 +314,25 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     rtcGetGeometryTransform(
         rtcGetGeometry(tlas_, hit.inst_id), time, RTC_FORMAT_FLOAT3X4_COLUMN_MAJOR, m.data());
     const Mat3<float> linear{m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]};
-    const Mat3<float> normal_matrix = glm::transpose(glm::inverse(linear));
+    const Mat3<float> normal_matrix{glm::transpose(glm::inverse(Mat3<double>{linear}))};
     const Vec3<float> translation{m[9], m[10], m[11]};
 
+    if (mapping.type == GeometryType::Light) {
+        // Lights have no surface attributes:
+        isect.position = ray.origin() + ray.direction() * hit.t;
+        isect.normal_g = glm::normalize(normal_matrix * hit.Ng);
+        isect.normal_g =
+            glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
+        isect.normal_s = isect.normal_g;
+        build_default_tangent_frame(isect.normal_s, isect.tangent, isect.bitangent);
+        return isect;
+    }
+
+    const auto& batch = primitives_[mapping.batch_index];
+
+    // Get the hit:
+    batch.primitive->geometry->compute_surface_interaction(hit, isect);
+
     isect.position = linear * isect.position + translation;
     isect.normal_g = glm::normalize(normal_matrix * hit.Ng);
     isect.normal_g =
-- 
2.43.0


From 03447b6e4f2d1bb324c11c4cc523e643201a0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 090/151] fix: meshes without tangents or normals get a finite
 shading frame

---
 include/huira_impl/materials/material.ipp | 10 ++++++++--
 include/huira_impl/scene/scene_view.ipp   | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..07a2ebf 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -54,8 +54,14 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
+    const Vec3<float> tangent =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    if (glm::length(tangent) > 1e-6f) {
+        shading_isect.tangent = glm::normalize(tangent);
+    } else {
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
     shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
 
     MaterialEval<TSpectral> result{};
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 3ea786f..d7ef696 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -337,13 +337,22 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     isect.normal_g = glm::normalize(normal_matrix * hit.Ng);
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(normal_matrix * isect.normal_s);
+    if (isect.normal_s == Vec3<float>{0.0f}) {
+        isect.normal_s = isect.normal_g;
+    } else {
+        isect.normal_s = glm::normalize(normal_matrix * isect.normal_s);
+    }
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(linear * isect.tangent);
-    isect.bitangent = glm::normalize(linear * isect.bitangent);
+    // Meshes without tangents leave them at zero:
+    if (isect.tangent != Vec3<float>{0.0f}) {
+        isect.tangent = glm::normalize(linear * isect.tangent);
+    }
+    if (isect.bitangent != Vec3<float>{0.0f}) {
+        isect.bitangent = glm::normalize(linear * isect.bitangent);
+    }
     if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
         isect.bitangent = -isect.bitangent;
     }
-- 
2.43.0


From f5bfa259732728879ff4a7a655e33995a0e97e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 091/151] fix: rays through an empty medium keep their weight
 at any distance

---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index fe95e19..ea7401b 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -286,7 +286,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         prev_isect = vol_isect;
                                         continue;
 
-                                    } else {
+                                    } else if (avg_ext > 0.0f) {
                                         TSpectral Tr{0.f};
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
                                             Tr[c] = std::exp(-ext[c] * hit.t);
-- 
2.43.0


From 02436a2363fc9fe1810a55cea593ec056416cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 092/151] fix: partly overlapping media are left in any order

---
 include/huira/volumes/medium_stack.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..2c16eda 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 
@@ -53,9 +54,18 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
-            --size_;
-        } else if (size_ < CAPACITY) {
+        // Volumes may partly overlap, so the one being left need not be the last one entered:
+        for (std::size_t i = size_; i-- > 0;) {
+            if (entries_[i].primitive == primitive) {
+                std::copy(entries_.begin() + static_cast<std::ptrdiff_t>(i) + 1,
+                          entries_.begin() + static_cast<std::ptrdiff_t>(size_),
+                          entries_.begin() + static_cast<std::ptrdiff_t>(i));
+                --size_;
+                return;
+            }
+        }
+
+        if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
             ++size_;
         }
-- 
2.43.0


From 6c1eef079de47878fba76c7112243c4fdeea72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 093/151] fix: instances of one unresolved object keep their
 own irradiance

---
 include/huira/scene/scene_view_types.hpp | 1 +
 include/huira_impl/render/renderer.ipp   | 4 +---
 include/huira_impl/scene/scene_view.ipp  | 6 ++++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..65da92b 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances;       // Irradiance of this instance at N times
 };
 
 /**
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index ea7401b..99d44f7 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -694,8 +694,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -711,7 +709,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
+            irradiances[i] = instance.irradiances[i];
         }
         TrajectoryArc arc(directions);
         items.push_back(
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index d7ef696..84535d7 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -139,6 +139,12 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         // interval
         unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
                                                                 lights_);
+
+        // The object is shared by its instances and by other views, so keep this one's values:
+        for (const auto& sample_time : temporal_samples_) {
+            unresolved_object.irradiances.push_back(
+                unresolved_object.unresolved_object->get_irradiance(sample_time));
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From 94a73abd354d3ec260853557dbae4f525190e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 094/151] fix: asteroid magnitudes use distances in
 astronomical units

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From 8ea7d8c8823b8f864f4ccd357336ae5e96eeadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 095/151] fix: the phase of an unresolved sphere is never NaN

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..d12da7c 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.f, 1.f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From c156a7d549ddc8695bb1a5ee79676a97249904d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 096/151] fix: unresolved Lambertian spheres match the light a
 resolved one reflects

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index d12da7c..ff4d813 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -143,8 +143,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // A Lambertian sphere at zero phase has a geometric albedo of 2/3 of its albedo:
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                reflectedPower * (2.f / 3.f) / (PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From 52ed0f2371dc66230c6f789f0c2678e54bc85e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 097/151] fix: a sphere light of a total power splits it over
 the bins

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..84183c1 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si / (PI<float>() * surface_area));
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From f90d192e77ea1c76e7b4d162aeb4385c8ecd08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 098/151] fix: sphere lights refuse an invalid spectral power

---
 include/huira_impl/assets/lights/sphere_light.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 84183c1..8dcd00c 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -81,6 +81,10 @@ void SphereLight<TSpectral>::set_spectral_power(
 {
     // Assuming your units system allows extracting the raw TSpectral
     TSpectral power_si = spectral_power.to_si();
+    if (!power_si.valid()) {
+        HUIRA_THROW_ERROR("SphereLight::set_spectral_power - Invalid spectral power: " +
+                          power_si.to_string());
+    }
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
     this->radiance_ = power_si / (PI<float>() * surface_area);
 }
-- 
2.43.0


From 6a2e190ba24c67e61c0cf941ce1a817107a9b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 099/151] fix: the cone of a distant sphere light keeps its
 precision

---
 .../huira_impl/assets/lights/sphere_light.ipp | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 8dcd00c..b7798b6 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -113,8 +113,11 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
     float u1 = sampler.get_1d();
     float u2 = sampler.get_1d();
 
-    float cos_theta = (1.0f - u1) + u1 * cos_theta_max;
-    float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    // (1 - cos_theta keeps its precision for distant lights, where cos_theta rounds to 1)
+    float one_minus_cos_max = sin_theta_max2 / (1.0f + cos_theta_max);
+    float one_minus_cos = u1 * one_minus_cos_max;
+    float cos_theta = 1.0f - one_minus_cos;
+    float sin_theta = std::sqrt(one_minus_cos * (2.0f - one_minus_cos));
     float phi = u2 * 2.0f * PI<float>();
 
     // Build a local coordinate system around the vector to the center (wc)
@@ -132,13 +135,7 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
         u * (sin_theta * std::cos(phi)) + v * (sin_theta * std::sin(phi)) + w * cos_theta;
 
     // Calculate Solid Angle and PDF
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-
-    // Robustness fallback for tiny spheres or immense distances
-    // to prevent catastrophic cancellation in floating point math
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * one_minus_cos_max;
 
     // Calculate distance to the sphere surface along wi using standard ray-sphere intersection:
     float b = glm::dot(wc, wi);
@@ -172,15 +169,13 @@ float SphereLight<TSpectral>::pdf_li(const Interaction<TSpectral>& isect,
     float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
 
     // Check if the given direction `wi` actually hits the sphere cone
-    float cos_theta = glm::dot(wi, glm::normalize(wc));
-    if (cos_theta < cos_theta_max) {
+    Vec3<float> w = wc / std::sqrt(d2);
+    Vec3<float> off_axis = glm::cross(wi, w);
+    if (glm::dot(wi, w) <= 0.0f || glm::dot(off_axis, off_axis) > sin_theta_max2) {
         return 0.0f; // Ray missed the sphere
     }
 
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * sin_theta_max2 / (1.0f + cos_theta_max);
 
     return 1.0f / solid_angle;
 }
-- 
2.43.0


From 664bf4ed7e697c01490a53e67450eb86dfc75813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 100/151] fix: a default deterministic sampler compiles

---
 include/huira/render/sampler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/render/sampler.hpp b/include/huira/render/sampler.hpp
index f27ccb7..94933da 100644
--- a/include/huira/render/sampler.hpp
+++ b/include/huira/render/sampler.hpp
@@ -32,7 +32,7 @@ class RandomSampler : public Sampler<TFloat> {
 template <IsFloatingPoint TFloat>
 class DeterministicSampler : public Sampler<TFloat> {
   public:
-    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5)(0.5)} {}
+    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5), TFloat(0.5)} {}
     DeterministicSampler(TFloat v1d, Vec2<TFloat> v2d) : value_1d(v1d), value_2d(v2d) {}
 
     TFloat get_1d() override { return value_1d; }
-- 
2.43.0


From 6987009c5e7aa8f46528badaee58f691205596b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 101/151] fix: a backlit unresolved sphere does not make the
 scene view throw

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index ff4d813..510e6c2 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -25,7 +25,8 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    // (rounding can make it slightly negative near a phase of pi)
+    return std::max(0.f, (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>());
 };
 
 /**
-- 
2.43.0


From 631795d328088c1fb6884853e92f1b6092e0f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 102/151] fix: the background stays fixed in the world when the
 camera turns

---
 include/huira_impl/render/renderer.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 99d44f7..2ea7982 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -297,8 +297,11 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
 
                                 if (!hit.hit()) {
-                                    // Sample environment map using ray direction
-                                    Vec3<float> d = glm::normalize(ray.direction());
+                                    // Sample environment map using the ray's world direction
+                                    Transform<float> camera_to_world =
+                                        interpolate_transform(scene_view.camera_to_world_, time);
+                                    Vec3<float> d = glm::normalize(camera_to_world.rotation *
+                                                                   ray.direction());
                                     float u =
                                         0.5f + std::atan2(d.z, d.x) * (0.5f * INV_PI<float>());
                                     float v = 0.5f - std::asin(std::clamp(d.y, -1.0f, 1.0f)) *
-- 
2.43.0


From 215cd2ac6fb71415cb2c9e9d2127170e5129d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 103/151] fix: stars behind a light source are hidden by it

---
 include/huira_impl/render/renderer.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2ea7982..c7f5db8 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -324,6 +324,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     Vec3<float> hit_p = ray.origin() + ray.direction() * hit.t;
                                     Vec3<float> emission_dir = -ray.direction();
+                                    if (bounce == 0) {
+                                        closest_depth =
+                                            std::min(closest_depth, passed_distance + hit.t);
+                                    }
                                     TSpectral Le =
                                         light_instance.light->radiance(hit_p, emission_dir);
 
-- 
2.43.0


From 9d75e97b8e3114ae8a57ab8545ff3910b350ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 104/151] fix: a pixel sees the aperture from its centre, not
 its corner

---
 include/huira_impl/cameras/camera_model.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index ed1f0e1..0b62ab8 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -584,7 +584,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(int x, int y) const
 template <IsSpectral TSpectral>
 float CameraModel<TSpectral>::pixel_radiance_to_power(int x, int y) const
 {
-    Ray<TSpectral> ray = cast_ray(x, y);
+    Ray<TSpectral> ray =
+        cast_ray(Pixel{static_cast<float>(x) + 0.5f, static_cast<float>(y) + 0.5f});
     return pixel_solid_angles_(x, y) * this->get_projected_aperture_area(ray.direction());
 }
 
-- 
2.43.0


From faddb1e45c69ddfad1db0b6c72654963d3abac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 105/151] fix: thin media still attenuate and scatter

---
 include/huira/volumes/medium.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira/volumes/medium.hpp b/include/huira/volumes/medium.hpp
index 0744d19..04da0f6 100644
--- a/include/huira/volumes/medium.hpp
+++ b/include/huira/volumes/medium.hpp
@@ -89,8 +89,9 @@ class Medium : public SceneObject<Medium<TSpectral>> {
         }
         avg_ext /= static_cast<float>(TSpectral::size());
 
-        // If the medium is practically a vacuum, the ray escapes infinitely
-        if (avg_ext <= 1e-6f) {
+        // If the medium is a vacuum, the ray escapes infinitely
+        // (thin media matter too: a planet's atmosphere may be a million meters deep)
+        if (!(avg_ext > 0.0f)) {
             return std::nullopt;
         }
 
-- 
2.43.0


From 8a41dfa2c38719d364c7b49e558f0843ce261bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 106/151] fix: a scaled light is seen with the radius it shines
 with

---
 include/huira_impl/scene/scene_view.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 84535d7..4143169 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -720,7 +720,10 @@ void SceneView<TSpectral>::build_tlas_()
 
         for (std::size_t t_idx = 0; t_idx < N; ++t_idx) {
             // Because we instance it, we get to use your existing Transform logic natively!
-            RTCQuaternionDecomposition decomp = light_inst.transforms[t_idx].to_embree();
+            // A light's radius is physical, and is what its emission is computed for:
+            Transform<float> light_transform = light_inst.transforms[t_idx];
+            light_transform.scale = Vec3<float>{1.0f};
+            RTCQuaternionDecomposition decomp = light_transform.to_embree();
             rtcSetGeometryTransformQuaternion(inst_geom, static_cast<unsigned int>(t_idx), &decomp);
         }
 
-- 
2.43.0


From df7b0ee2a484e521136015761098f51528e18f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 107/151] fix: overlapping instances of one primitive both
 enclose a ray

---
 include/huira/volumes/medium_stack.hpp  | 12 ++++++++----
 include/huira_impl/render/renderer.ipp  |  4 ++--
 include/huira_impl/scene/scene_view.ipp |  4 ++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 2c16eda..f9fb7f0 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -42,9 +42,12 @@ class MediumStack {
     [[nodiscard]] std::size_t size() const noexcept { return size_; }
 
     /**
-     * @brief Toggle membership of a primitive on the stack.
+     * @brief Toggle membership of an instance of a primitive on the stack.
+     *
+     * @param primitive The primitive whose boundary is crossed.
+     * @param instance Identifies the instance, as instances of one primitive may overlap.
      */
-    void toggle(const Primitive<TSpectral>* primitive) noexcept
+    void toggle(const Primitive<TSpectral>* primitive, unsigned int instance = 0) noexcept
     {
         if (primitive == nullptr) {
             return;
@@ -56,7 +59,7 @@ class MediumStack {
 
         // Volumes may partly overlap, so the one being left need not be the last one entered:
         for (std::size_t i = size_; i-- > 0;) {
-            if (entries_[i].primitive == primitive) {
+            if (entries_[i].primitive == primitive && entries_[i].instance == instance) {
                 std::copy(entries_.begin() + static_cast<std::ptrdiff_t>(i) + 1,
                           entries_.begin() + static_cast<std::ptrdiff_t>(size_),
                           entries_.begin() + static_cast<std::ptrdiff_t>(i));
@@ -66,7 +69,7 @@ class MediumStack {
         }
 
         if (size_ < CAPACITY) {
-            entries_[size_] = {primitive, medium};
+            entries_[size_] = {primitive, medium, instance};
             ++size_;
         }
     }
@@ -75,6 +78,7 @@ class MediumStack {
     struct Entry {
         const Primitive<TSpectral>* primitive{nullptr};
         const Medium<TSpectral>* medium{nullptr};
+        unsigned int instance{0};
     };
 
     std::array<Entry, CAPACITY> entries_{};
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index c7f5db8..18454c6 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -382,7 +382,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             ray = Ray<TSpectral>(pass_through_origin,
                                                                  ray.direction());
 
-                                            medium_stack.toggle(batch.primitive.get());
+                                            medium_stack.toggle(batch.primitive.get(), hit.inst_id);
 
                                             passed_distance += hit.t;
                                             bounce--; // Don't count this towards bounce counts
@@ -497,7 +497,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     const float wi_side = glm::dot(bs.wi, isect.normal_g);
                                     const bool is_transmission = (wo_side * wi_side) < 0.0f;
                                     if (is_transmission) {
-                                        medium_stack.toggle(batch.primitive.get());
+                                        medium_stack.toggle(batch.primitive.get(), hit.inst_id);
                                     }
                                 }
                             }
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 4143169..5c704b5 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -269,7 +269,7 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
                 current_ray = Ray<TSpectral>(offset_intersection_(isect.position, bounce_normal),
                                              current_ray.direction());
 
-                stack.toggle(batch.primitive.get());
+                stack.toggle(batch.primitive.get(), hit.inst_id);
 
                 distance_remaining -= hit.t;
                 continue;
@@ -289,7 +289,7 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
         current_ray = Ray<TSpectral>(offset_intersection_(isect.position, bounce_normal),
                                      current_ray.direction());
 
-        stack.toggle(batch.primitive.get());
+        stack.toggle(batch.primitive.get(), hit.inst_id);
 
         distance_remaining -= hit.t;
     }
-- 
2.43.0


From f0e04f2abebee886b83a1a32a7dba3b0398dfd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 108/151] fix: a camera inside a medium sees it

---
 include/huira/scene/scene_view.hpp      |  3 ++
 include/huira_impl/render/renderer.ipp  |  8 +++-
 include/huira_impl/scene/scene_view.ipp | 54 +++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index e84da50..4b4e4be 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -52,6 +52,9 @@ class SceneView {
                                                    RandomSampler<float>& sampler,
                                                    float time = 0.5f) const;
 
+    [[nodiscard]] MediumStack<TSpectral> enclosing_media(const Vec3<float>& point,
+                                                         float time = 0.5f) const;
+
     [[nodiscard]] Interaction<TSpectral> resolve_hit(const Ray<TSpectral>& ray,
                                                      const HitRecord& hit,
                                                      float time = 0.5f) const;
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 18454c6..984665b 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -146,6 +146,9 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int num_tiles = tiles_x * tiles_y;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
+    // The camera itself may be inside of media:
+    const MediumStack<TSpectral> camera_media = scene_view.enclosing_media(Vec3<float>{0.f}, 0.f);
+
     tbb::parallel_for(
         tbb::blocked_range<int>(0, num_tiles), [&](const tbb::blocked_range<int>& range) {
             for (int tile_idx = range.begin(); tile_idx < range.end(); ++tile_idx) {
@@ -200,7 +203,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             float prev_bsdf_pdf = 1.0f;
                             Interaction<TSpectral> prev_isect;
 
-                            MediumStack<TSpectral> medium_stack;
+                            MediumStack<TSpectral> medium_stack =
+                                has_motion_blur
+                                    ? scene_view.enclosing_media(Vec3<float>{0.f}, time)
+                                    : camera_media;
                             float passed_distance = 0.0f; // through transparent surfaces
 
                             for (int bounce = 0; bounce < max_bounces_; ++bounce) {
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 5c704b5..249eeea 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <array>
 #include <limits>
 #include <memory>
@@ -297,6 +298,59 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
     return transmittance;
 }
 
+/**
+ * @brief Finds the media whose boundaries enclose a point.
+ *
+ * An instance encloses the point if its boundary is crossed an odd number of times both along and
+ * against a fixed direction, so that open surfaces never do.
+ *
+ * @param point Point to test
+ * @param time Time in [0, 1] within the exposure
+ * @return MediumStack<TSpectral> The enclosing media, the innermost on top
+ */
+template <IsSpectral TSpectral>
+MediumStack<TSpectral> SceneView<TSpectral>::enclosing_media(const Vec3<float>& point,
+                                                             float time) const
+{
+    constexpr std::size_t MAX_CROSSINGS = 1024;
+
+    // Instances crossed an odd number of times, by increasing distance:
+    auto crossed_oddly = [&](const Vec3<float>& direction) {
+        std::vector<unsigned int> odd;
+        Ray<TSpectral> ray(point, direction);
+        for (std::size_t i = 0; i < MAX_CROSSINGS; ++i) {
+            HitRecord hit = this->intersect(ray, time, MASK_GEOMETRY_);
+            if (!hit.hit()) {
+                break;
+            }
+            auto it = std::find(odd.begin(), odd.end(), hit.inst_id);
+            if (it == odd.end()) {
+                odd.push_back(hit.inst_id);
+            } else {
+                odd.erase(it);
+            }
+            Interaction<TSpectral> isect = this->resolve_hit(ray, hit, time);
+            ray = Ray<TSpectral>(offset_intersection_(isect.position, -isect.normal_g), direction);
+        }
+        return odd;
+    };
+
+    const Vec3<float> direction = glm::normalize(Vec3<float>{0.267f, 0.535f, 0.802f});
+    const std::vector<unsigned int> ahead = crossed_oddly(direction);
+    MediumStack<TSpectral> stack;
+    if (ahead.empty()) {
+        return stack;
+    }
+    const std::vector<unsigned int> behind = crossed_oddly(-direction);
+    for (auto it = ahead.rbegin(); it != ahead.rend(); ++it) {
+        if (std::find(behind.begin(), behind.end(), *it) != behind.end()) {
+            const auto& mapping = instance_mappings_[*it];
+            stack.toggle(primitives_[mapping.batch_index].primitive.get(), *it);
+        }
+    }
+    return stack;
+}
+
 /**
  * @brief Resolve a hit record into a full interaction, including position, normals, UVs, etc.
  * @param ray The ray that caused the hit.
-- 
2.43.0


From f3af736faa07bb1e7e750b2361d908872c943246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 109/151] fix: rays find distant ellipsoids where they are

---
 include/huira_impl/geometry/ellipsoid.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..a3f95e0 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -117,18 +117,21 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
     float L = glm::length(D_s);
     Vec3<float> D_u = D_s / L;
 
-    float B = 2.0f * glm::dot(O_s, D_u);
+    // Work with the closest approach to the centre, not with B * B - 4 * C: the latter cancels
+    // catastrophically when the origin is many radii away.
+    float B = glm::dot(O_s, D_u);
     float C = glm::dot(O_s, O_s) - 1.0f;
+    Vec3<float> closest = O_s - B * D_u;
 
-    float discriminant = B * B - 4.0f * C;
+    float discriminant = 1.0f - glm::dot(closest, closest);
     if (discriminant < 0.0f) {
         return;
     }
 
     float sqrt_disc = std::sqrt(discriminant);
-    float q = -0.5f * (B + std::copysign(sqrt_disc, B));
+    float q = -(B + std::copysign(sqrt_disc, B));
     float t0_u = q;
-    float t1_u = C / q;
+    float t1_u = (q != 0.0f) ? C / q : 0.0f;
 
     if (t0_u > t1_u) {
         std::swap(t0_u, t1_u);
-- 
2.43.0


From f87b22b6b6089f4678fe9a023045adee9e8bca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 110/151] fix: points near the poles of an ellipsoid keep their
 latitude

---
 include/huira_impl/geometry/ellipsoid.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index a3f95e0..139128a 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -162,7 +162,7 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         Vec3<float> P_unit = glm::normalize(O_s + t_u * D_u);
         float u = (std::atan2(P_unit.y, P_unit.x) + PI<float>()) / (2.0f * PI<float>());
-        float v = std::acos(P_unit.z) / PI<float>();
+        float v = std::atan2(std::hypot(P_unit.x, P_unit.y), P_unit.z) / PI<float>();
 
         RTCHitN_u(hit, args->N, 0) = u;
         RTCHitN_v(hit, args->N, 0) = v;
-- 
2.43.0


From 4c67c0b3ee41bd43c1ea6e86b283a5341aedec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 111/151] fix: the tangent of an ellipsoid lies in its surface
 at any size

---
 include/huira_impl/geometry/ellipsoid.ipp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 139128a..019ccd7 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -33,13 +33,9 @@ void Ellipsoid<TSpectral>::compute_surface_interaction(const HitRecord& hit,
     isect.normal_s = isect.normal_g;
 
     // Compute Tangent Frame using partials
-    Vec3<float> dpdu = {-radii_.x * sin_theta * sin_phi, radii_.y * sin_theta * cos_phi, 0.0f};
-
-    // Handle singularity at the poles
-    if (glm::dot(dpdu, dpdu) < 1e-8f) {
-        dpdu = {1.0f, 0.0f, 0.0f};
-    }
-
+    // Its length, proportional to sin_theta, is irrelevant: leaving it out keeps the direction
+    // defined at the poles and for ellipsoids of any size
+    Vec3<float> dpdu = {-radii_.x * sin_phi / r_max, radii_.y * cos_phi / r_max, 0.0f};
     isect.tangent = glm::normalize(dpdu);
     isect.bitangent = glm::normalize(glm::cross(isect.normal_g, isect.tangent));
 }
-- 
2.43.0


From b821f317619a22c5f6f014e325d1375db8240a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 112/151] fix: rays do not slip between adjacent triangles of a
 mesh

---
 include/huira_impl/geometry/mesh.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/geometry/mesh.ipp b/include/huira_impl/geometry/mesh.ipp
index eae9e8e..15c6c4f 100644
--- a/include/huira_impl/geometry/mesh.ipp
+++ b/include/huira_impl/geometry/mesh.ipp
@@ -151,6 +151,9 @@ void Mesh<TSpectral>::build_blas_() const
             std::to_string(static_cast<int>(rtcGetDeviceError(this->device_->get()))) + ").");
     }
 
+    // Neighbouring triangles must not let rays slip through the edges and corners they share:
+    rtcSetSceneFlags(this->blas_.get(), RTC_SCENE_FLAG_ROBUST);
+
     rtcAttachGeometry(this->blas_.get(), geom);
     rtcReleaseGeometry(geom);
 
-- 
2.43.0


From f131ad4abc117ffd354022a1b8d0215b0717e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 113/151] fix: a mesh with an incomplete triangle is refused

---
 include/huira_impl/geometry/mesh.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/geometry/mesh.ipp b/include/huira_impl/geometry/mesh.ipp
index 15c6c4f..905094e 100644
--- a/include/huira_impl/geometry/mesh.ipp
+++ b/include/huira_impl/geometry/mesh.ipp
@@ -26,6 +26,9 @@ Mesh<TSpectral>::Mesh(IndexBuffer index_buffer, VertexBuffer<TSpectral> vertex_b
     if (std::ranges::any_of(index_buffer_, [c](std::uint32_t i) { return i >= c; })) {
         HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer contains out-of-bounds indices.");
     }
+    if (index_buffer_.size() % 3 != 0) {
+        HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer does not hold three indices per triangle.");
+    }
 }
 
 template <IsSpectral TSpectral>
@@ -41,6 +44,9 @@ Mesh<TSpectral>::Mesh(IndexBuffer index_buffer,
                             [vertex_count](std::uint32_t idx) { return idx >= vertex_count; })) {
         HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer contains out-of-bounds indices.");
     }
+    if (index_buffer_.size() % 3 != 0) {
+        HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer does not hold three indices per triangle.");
+    }
 
     if (tangent_buffer_.size() != 0 && tangent_buffer_.size() != vertex_buffer_.size()) {
         HUIRA_THROW_ERROR("Mesh::Mesh - tangent_buffer must be the same size as vertex_buffer.");
-- 
2.43.0


From bafd3e0c997491d8f5d23a9ab53487f69e4d36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 114/151] fix: an ellipsoid without a positive, finite size is
 refused

---
 include/huira/geometry/ellipsoid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira/geometry/ellipsoid.hpp b/include/huira/geometry/ellipsoid.hpp
index 9a4d13f..2218970 100644
--- a/include/huira/geometry/ellipsoid.hpp
+++ b/include/huira/geometry/ellipsoid.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cmath>
+
 #include "embree4/rtcore.h"
 #include "huira/concepts/spectral_concepts.hpp"
 #include "huira/core/types.hpp"
@@ -14,6 +16,11 @@ class Ellipsoid : public Geometry<TSpectral> {
     Ellipsoid(const units::Meter& x, const units::Meter& y, const units::Meter& z)
         : radii_{x.to_si_f(), y.to_si_f(), z.to_si_f()}
     {
+        for (float radius : {radii_.x, radii_.y, radii_.z}) {
+            if (!(radius > 0.0f) || !std::isfinite(radius)) {
+                HUIRA_THROW_ERROR("Ellipsoid::Ellipsoid - radii must be positive and finite.");
+            }
+        }
     }
     ~Ellipsoid() override = default;
 
-- 
2.43.0


From 699cdd26c74d7398347dc468eb4d3340d8df6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 115/151] fix: sine-weighted samples follow the density they
 report

---
 include/huira/materials/sampling_utils.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 329b3aa..4b9de3a 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -65,8 +65,16 @@ struct HemisphereSample {
  */
 [[nodiscard]] inline HemisphereSample sine_hemisphere(float u1, float u2) noexcept
 {
-    const float cos_theta = std::cbrt(1.0f - u1);
-    const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    // The fraction of samples within theta of the normal is (2 theta - sin(2 theta)) / pi. Its
+    // inverse has no closed form; Newton's method converges from any start below the solution.
+    const double target = std::numbers::pi * static_cast<double>(u1);
+    double two_theta = std::cbrt(6.0 * target);
+    for (int i = 0; i < 8 && two_theta > 1e-4; ++i) {
+        two_theta -=
+            (two_theta - std::sin(two_theta) - target) / (1.0 - std::cos(two_theta));
+    }
+    const float cos_theta = static_cast<float>(std::max(0.0, std::cos(0.5 * two_theta)));
+    const float sin_theta = static_cast<float>(std::sin(0.5 * two_theta));
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
     const float pdf = 2.0f * sin_theta / (std::numbers::pi_v<float> * std::numbers::pi_v<float>);
-- 
2.43.0


From bf7f56e90bcdbc4c281dffe24139842a55494e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 116/151] fix: sub-pixel samples stay within their pixel

---
 include/huira_impl/render/renderer.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 984665b..f029f5c 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -182,8 +182,13 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                         for (int s = 0; s < spp_; ++s) {
                             // Jittered sub-pixel sample:
-                            float sx = static_cast<float>(x) + sampler.get_1d();
-                            float sy = static_cast<float>(y) + sampler.get_1d();
+                            // (rounding must not carry it into the next pixel, or off the image)
+                            const float px = static_cast<float>(x);
+                            const float py = static_cast<float>(y);
+                            float sx = std::min(px + sampler.get_1d(),
+                                                std::nextafter(px + 1.0f, 0.0f));
+                            float sy = std::min(py + sampler.get_1d(),
+                                                std::nextafter(py + 1.0f, 0.0f));
 
                             // Generate camera ray from pixel coordinates:
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
-- 
2.43.0


From 40a9d3449aa3900b9ad77d12347a342f7f09bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 117/151] fix: smooth Cook-Torrance surfaces reflect instead of
 vanishing

---
 .../materials/bsdfs/cook_torrance_bsdf.hpp      |  3 ++-
 include/huira/materials/sampling_utils.hpp      | 10 ++++++----
 .../materials/bsdfs/cook_torrance_bsdf.ipp      | 17 ++++++++++-------
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp b/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
index 17a9406..974f40d 100644
--- a/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
+++ b/include/huira/materials/bsdfs/cook_torrance_bsdf.hpp
@@ -77,7 +77,8 @@ class CookTorranceBSDF final : public BSDF<TSpectral> {
     /// Minimum roughness to prevent numerical singularity at perfect specularity.
     static constexpr float min_roughness_ = 0.01f;
 
-    [[nodiscard]] static float ggx_D(float n_dot_h, float alpha2) noexcept;
+    [[nodiscard]] static float
+    ggx_D(const Vec3<float>& n, const Vec3<float>& h, float alpha2) noexcept;
 
     [[nodiscard]] static float smith_G1(float n_dot_v, float alpha2) noexcept;
 
diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 4b9de3a..090f500 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -103,14 +103,16 @@ ggx_sample_half_vector(float u1, float u2, float roughness) noexcept
     const float alpha = roughness * roughness;
     const float alpha2 = alpha * alpha;
 
-    const float cos_theta2 = (1.0f - u1) / (1.0f + (alpha2 - 1.0f) * u1);
+    // (sine and cosine separately: 1 - cos^2 would lose the sine of smooth surfaces)
+    const float cos_theta2 = (1.0f - u1) / ((1.0f - u1) + alpha2 * u1);
+    const float sin_theta2 = alpha2 * u1 / ((1.0f - u1) + alpha2 * u1);
     const float cos_theta = std::sqrt(cos_theta2);
-    const float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta2));
+    const float sin_theta = std::sqrt(sin_theta2);
     const float phi = 2.0f * std::numbers::pi_v<float> * u2;
 
     const Vec3<float> h = {sin_theta * std::cos(phi), sin_theta * std::sin(phi), cos_theta};
 
-    const float denom = cos_theta2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom = cos_theta2 * alpha2 + sin_theta2;
     const float D = alpha2 / (std::numbers::pi_v<float> * denom * denom);
     const float pdf = D * cos_theta;
 
@@ -156,7 +158,7 @@ ggx_vndf_sample(const Vec3<float>& wo, float roughness, float u1, float u2) noex
     const float cos_theta_h = h.z;
     const float cos_theta_h2 = cos_theta_h * cos_theta_h;
     const float alpha2 = alpha * alpha;
-    const float denom_D = cos_theta_h2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom_D = cos_theta_h2 * alpha2 + (h.x * h.x + h.y * h.y);
     const float D = alpha2 / (std::numbers::pi_v<float> * denom_D * denom_D);
 
     const float cos_theta_o = wo.z;
diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index 756a47b..c2ff711 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -42,10 +42,9 @@ TSpectral CookTorranceBSDF<TSpectral>::eval(const Vec3<float>& wo,
 
     // Specular (Cook-Torrance microfacet with GGX NDF)
     Vec3<float> h = glm::normalize(wo + wi);
-    const float n_dot_h = std::max(glm::dot(n, h), 0.0f);
     const float wo_dot_h = std::max(glm::dot(wo, h), 0.0f);
 
-    const float D = ggx_D(n_dot_h, alpha2);
+    const float D = ggx_D(n, h, alpha2);
     const float G = smith_G2(n_dot_wo, n_dot_wi, alpha2);
     const TSpectral F = schlick_fresnel(wo_dot_h, f0);
 
@@ -152,10 +151,9 @@ float CookTorranceBSDF<TSpectral>::pdf(const Vec3<float>& wo,
     const float alpha2 = alpha * alpha;
 
     Vec3<float> h = glm::normalize(wo + wi);
-    const float n_dot_h = std::max(glm::dot(n, h), 0.0f);
 
     // Specular PDF: GGX VNDF
-    const float D = ggx_D(n_dot_h, alpha2);
+    const float D = ggx_D(n, h, alpha2);
     const float G1 = smith_G1(n_dot_wo, alpha2);
     const float spec_pdf = D * G1 / (4.0f * n_dot_wo);
 
@@ -168,10 +166,15 @@ float CookTorranceBSDF<TSpectral>::pdf(const Vec3<float>& wo,
 }
 
 template <IsSpectral TSpectral>
-float CookTorranceBSDF<TSpectral>::ggx_D(float n_dot_h, float alpha2) noexcept
+float CookTorranceBSDF<TSpectral>::ggx_D(const Vec3<float>& n,
+                                         const Vec3<float>& h,
+                                         float alpha2) noexcept
 {
-    const float cos2 = n_dot_h * n_dot_h;
-    const float denom = cos2 * (alpha2 - 1.0f) + 1.0f;
+    // cos^2 * alpha^2 + sin^2, with the sine from the cross product: 1 - cos^2 would cancel to
+    // nothing for smooth surfaces, where alpha^2 is below the resolution of single precision.
+    const float n_dot_h = std::max(glm::dot(n, h), 0.0f);
+    const Vec3<float> n_cross_h = glm::cross(n, h);
+    const float denom = n_dot_h * n_dot_h * alpha2 + glm::dot(n_cross_h, n_cross_h);
     return alpha2 / (std::numbers::pi_v<float> * denom * denom);
 }
 
-- 
2.43.0


From ef60a60057579f44a5992694b7c820d23cc804d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 118/151] fix: the Fresnel term of a black metal is never
 negative

---
 include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index c2ff711..6cfed6b 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -42,7 +42,8 @@ TSpectral CookTorranceBSDF<TSpectral>::eval(const Vec3<float>& wo,
 
     // Specular (Cook-Torrance microfacet with GGX NDF)
     Vec3<float> h = glm::normalize(wo + wi);
-    const float wo_dot_h = std::max(glm::dot(wo, h), 0.0f);
+    // (rounding can put the cosine above one, which would make the Fresnel term negative)
+    const float wo_dot_h = std::clamp(glm::dot(wo, h), 0.0f, 1.0f);
 
     const float D = ggx_D(n, h, alpha2);
     const float G = smith_G2(n_dot_wo, n_dot_wi, alpha2);
-- 
2.43.0


From b13c8d2465856203e1e72251e2304e6901d6ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 119/151] fix: Cook-Torrance masking is height-correlated as
 documented

---
 include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index 6cfed6b..c080f82 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -190,7 +190,9 @@ float CookTorranceBSDF<TSpectral>::smith_G1(float n_dot_v, float alpha2) noexcep
 template <IsSpectral TSpectral>
 float CookTorranceBSDF<TSpectral>::smith_G2(float n_dot_wo, float n_dot_wi, float alpha2) noexcept
 {
-    return smith_G1(n_dot_wo, alpha2) * smith_G1(n_dot_wi, alpha2);
+    // Height-correlated: 1 / (1 + Lambda(wo) + Lambda(wi)), with G1 = 1 / (1 + Lambda)
+    return 1.0f /
+           (1.0f / smith_G1(n_dot_wo, alpha2) + 1.0f / smith_G1(n_dot_wi, alpha2) - 1.0f);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From 39cc90c05515bde0ec67beacd01a08b99e14decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 120/151] fix: a normal map without a direction leaves the
 surface unperturbed

---
 include/huira_impl/materials/material.ipp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index 07a2ebf..a042f70 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -41,15 +41,19 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
 
     if (eval_normal_) {
         if (isect.tangent != Vec3<float>{0.0f}) {
-            Vec3<float> ts_normal = glm::normalize(normal_image_->sample_bilinear(uv.x, uv.y));
-
+            Vec3<float> ts_normal = normal_image_->sample_bilinear(uv.x, uv.y);
             ts_normal.x *= normal_factor_;
             ts_normal.y *= normal_factor_;
-            ts_normal = glm::normalize(ts_normal);
-
-            Vec3<float> perturbed = isect.tangent * ts_normal.x + isect.bitangent * ts_normal.y +
-                                    isect.normal_s * ts_normal.z;
-            shading_isect.normal_s = glm::normalize(perturbed);
+            // Opposite texels, or sideways ones scaled away, leave no direction to normalize:
+            if (glm::length(ts_normal) > 1e-6f) {
+                ts_normal = glm::normalize(ts_normal);
+                Vec3<float> perturbed = isect.tangent * ts_normal.x +
+                                        isect.bitangent * ts_normal.y +
+                                        isect.normal_s * ts_normal.z;
+                if (glm::length(perturbed) > 1e-6f) {
+                    shading_isect.normal_s = glm::normalize(perturbed);
+                }
+            }
         }
     }
 
-- 
2.43.0


From bae0b4914bd88e833a1f122586949147ec656102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 121/151] fix: normal textures with mid-grey texels hold no NaN

---
 include/huira_impl/scene/scene.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index f84b55a..3c7d964 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -970,7 +970,9 @@ TextureHandle<Vec3<float>> Scene<TSpectral>::add_normal_texture(Image<Vec3<float
                                                                 std::string name)
 {
     for (std::size_t i = 0; i < image.size(); ++i) {
-        image[i] = glm::normalize(image[i] * 2.0f - Vec3<float>{1.0f});
+        // Mid-grey encodes no direction, as in the unused parts of an atlas:
+        const Vec3<float> normal = image[i] * 2.0f - Vec3<float>{1.0f};
+        image[i] = glm::length(normal) > 0.0f ? glm::normalize(normal) : Vec3<float>{0, 0, 1};
     }
     return add_texture(std::move(image), name);
 }
-- 
2.43.0


From ca73a10f6e407c3336504d7f37e135b1a4bfa3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 122/151] fix: PSF kernels of shifted sub-pixel positions reach
 their outermost pixels

---
 include/huira_impl/cameras/psfs/psf.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index d1ba086..8ee0e3a 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -80,7 +80,8 @@ void PSF<TSpectral>::generate_polyphase_data_()
     std::vector<TSpectral> lut_data(static_cast<std::size_t>(lut_res) *
                                     static_cast<std::size_t>(lut_res));
 
-    float max_radius = static_cast<float>(cache_.radius) + 1.0f;
+    // The last pixel extends half a pixel beyond the radius, and the banks shift it by up to one more
+    float max_radius = static_cast<float>(cache_.radius) + 1.5f;
     float lut_scale_inv = 1.0f / static_cast<float>(lut_res - 1);
 
     tbb::parallel_for(
-- 
2.43.0


From 2d765e092192b8eea2cb2d528d43c3a6353bd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 123/151] fix: defocus kernels of shifted sub-pixel positions
 hold the whole blur disc

---
 include/huira_impl/cameras/apertures/aperture.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index f7c556a..55be74c 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -32,7 +32,8 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
     }
 
     defocus_cache_.radius = blur_radius_pixels;
-    defocus_cache_.half_extent = std::max(1, static_cast<int>(std::ceil(blur_radius_pixels)));
+    defocus_cache_.half_extent = 
+        std::max(1, static_cast<int>(std::ceil(blur_radius_pixels + 0.5f)));
     defocus_cache_.banks = banks;
     defocus_cache_.dim = 2 * defocus_cache_.half_extent + 1;
 
-- 
2.43.0


From 47290574a0b0caccdca1d8e5fcc5d7cb87788383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 124/151] fix: PSF and defocus kernels refuse negative radii
 and empty banks

---
 include/huira_impl/cameras/apertures/aperture.ipp | 6 ++++++
 include/huira_impl/cameras/psfs/psf.ipp           | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/huira_impl/cameras/apertures/aperture.ipp b/include/huira_impl/cameras/apertures/aperture.ipp
index 55be74c..0bc2abf 100644
--- a/include/huira_impl/cameras/apertures/aperture.ipp
+++ b/include/huira_impl/cameras/apertures/aperture.ipp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cmath>
+#include <string>
 
 #include "huira/util/logger.hpp"
 
@@ -11,6 +12,11 @@ void Aperture<TSpectral>::build_defocus_kernel(units::Diopter defocus,
                                                units::Meter pitch_y,
                                                int banks)
 {
+    if (banks < 1) {
+        HUIRA_THROW_ERROR("Aperture::build_defocus_kernel - Invalid number of banks: " +
+                          std::to_string(banks));
+    }
+
     const float abs_defocus = std::abs(defocus.to_si_f());
     const float f = focal_length.to_si_f();
     const float bounding_r = this->get_bounding_radius().to_si_f();
diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index 8ee0e3a..53c6b83 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -1,6 +1,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <string>
 
 #include "huira/images/image.hpp"
 #include "huira/images/io/png_io.hpp"
@@ -21,6 +22,12 @@ namespace huira {
 template <IsSpectral TSpectral>
 void PSF<TSpectral>::build_polyphase_cache(int radius, int banks)
 {
+    if (radius < 0 || banks < 1) {
+        HUIRA_THROW_ERROR("PSF::build_polyphase_cache - Invalid radius (" +
+                          std::to_string(radius) + ") or number of banks (" +
+                          std::to_string(banks) + ")");
+    }
+
     cache_.radius = radius;
     cache_.banks = banks;
     cache_.dim = 2 * radius + 1;
-- 
2.43.0


From ef489256847db00759a6bb10d5ac251065d15e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 125/151] fix: models with mirrored nodes load

---
 include/huira_impl/assets/io/model_loader.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1e279f4..9e6692a 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -340,6 +340,15 @@ Transform<double> ModelLoader<TSpectral>::convert_transform_(const aiMatrix4x4&
         col2.z /= scale_z;
     }
 
+    // A mirrored node has no rotation of its own: carry the mirroring in the scale instead. All
+    // three axes are flipped so that the sign commutes with the rotations of the child nodes.
+    if (glm::dot(glm::cross(col0, col1), col2) < 0.0) {
+        col0 = -col0;
+        col1 = -col1;
+        col2 = -col2;
+        transform.scale = -transform.scale;
+    }
+
     // Recall the column major ordering of GLM:
     Mat3<double> matrix{col0.x, col0.y, col0.z, col1.x, col1.y, col1.z, col2.x, col2.y, col2.z};
 
-- 
2.43.0


From 9da4f43f2e2e2845c63400f3155018890717d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 126/151] fix: a model that fails to load leaves nothing in the
 scene

---
 include/huira/scene/name_registry.hpp         |   1 +
 include/huira_impl/assets/io/model_loader.ipp | 110 +++++++++++-------
 include/huira_impl/scene/name_registry.ipp    |  12 ++
 3 files changed, 80 insertions(+), 43 deletions(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index dd11c48..5ad6ffc 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -19,6 +19,7 @@ class NameRegistry {
   public:
     void add(std::shared_ptr<T> object, std::string name);
     void remove(std::shared_ptr<T> object);
+    void truncate(std::size_t count);
     void set_name(std::shared_ptr<T> object, std::string name);
 
     std::size_t size() const { return objects_.size(); }
diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 9e6692a..639beb8 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -63,50 +63,74 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
     if (name.empty()) {
         name = file_path.stem().string();
     }
-    scene.models_.add(shared_model, name);
-
-    // Create the root node for the model's scene graph
-    // Note: We pass nullptr for Scene* since this is a disconnected graph
-    // This means SPICE-based transforms won't work within models
-    shared_model->root_node_ = std::make_shared<FrameNode<TSpectral>>(nullptr);
-
-    // Setup loading context
-    LoadContext ctx;
-    ctx.ai_scene = ai_scene;
-    ctx.model = shared_model.get();
-    ctx.scene = &scene;
-    ctx.spectral_conversion = std::move(spectral_conversion);
-    ctx.base_directory = file_path.parent_path();
-
-    // Process all materials:
-    process_materials_(ctx);
-
-    // Process all meshes:
-    process_meshes_(ctx);
-
-    // Process the node hierarchy (creates FrameNodes and Instances)
-    // The root ASSIMP node's transform is applied to our root node
-    Transform<double> root_transform = convert_transform_(ai_scene->mRootNode->mTransformation);
-    shared_model->root_node_->set_position(root_transform.position);
-    shared_model->root_node_->set_rotation(root_transform.rotation);
-    shared_model->root_node_->set_scale(root_transform.scale);
-
-    // Process children of the root node
-    for (unsigned int i = 0; i < ai_scene->mRootNode->mNumChildren; ++i) {
-        process_node_(ai_scene->mRootNode->mChildren[i], shared_model->root_node_.get(), ctx);
-    }
-
-    // Also handle any meshes directly attached to the root node
-    for (unsigned int i = 0; i < ai_scene->mRootNode->mNumMeshes; ++i) {
-        unsigned int mesh_index = ai_scene->mRootNode->mMeshes[i];
-        auto it = ctx.primitive_map.find(mesh_index);
-        if (it != ctx.primitive_map.end()) {
-            PrimitiveHandle<TSpectral> primitive_handle = it->second;
-            shared_model->root_node_->new_instance(primitive_handle.get().get());
-        } else {
-            HUIRA_LOG_ERROR("ModelLoader::load - Mesh index " + std::to_string(mesh_index) +
-                            " not found in primitive map");
+    // Remember what the scene holds, so that a failed load leaves nothing behind
+    const std::size_t n_models = scene.models_.size();
+    const std::size_t n_bsdfs = scene.bsdfs_.size();
+    const std::size_t n_materials = scene.materials_.size();
+    const std::size_t n_spectral_textures = scene.spectral_textures_.size();
+    const std::size_t n_mono_textures = scene.mono_textures_.size();
+    const std::size_t n_vec3_textures = scene.vec3_textures_.size();
+    const std::size_t n_geometries = scene.geometries_.size();
+    const std::size_t n_primitives = scene.primitives_.size();
+    const std::size_t n_nodes = scene.node_registry_.size();
+
+    try {
+        scene.models_.add(shared_model, name);
+
+        // Create the root node for the model's scene graph
+        // Note: We pass nullptr for Scene* since this is a disconnected graph
+        // This means SPICE-based transforms won't work within models
+        shared_model->root_node_ = std::make_shared<FrameNode<TSpectral>>(nullptr);
+
+        // Setup loading context
+        LoadContext ctx;
+        ctx.ai_scene = ai_scene;
+        ctx.model = shared_model.get();
+        ctx.scene = &scene;
+        ctx.spectral_conversion = std::move(spectral_conversion);
+        ctx.base_directory = file_path.parent_path();
+
+        // Process all materials:
+        process_materials_(ctx);
+
+        // Process all meshes:
+        process_meshes_(ctx);
+
+        // Process the node hierarchy (creates FrameNodes and Instances)
+        // The root ASSIMP node's transform is applied to our root node
+        Transform<double> root_transform = convert_transform_(ai_scene->mRootNode->mTransformation);
+        shared_model->root_node_->set_position(root_transform.position);
+        shared_model->root_node_->set_rotation(root_transform.rotation);
+        shared_model->root_node_->set_scale(root_transform.scale);
+
+        // Process children of the root node
+        for (unsigned int i = 0; i < ai_scene->mRootNode->mNumChildren; ++i) {
+            process_node_(ai_scene->mRootNode->mChildren[i], shared_model->root_node_.get(), ctx);
+        }
+
+        // Also handle any meshes directly attached to the root node
+        for (unsigned int i = 0; i < ai_scene->mRootNode->mNumMeshes; ++i) {
+            unsigned int mesh_index = ai_scene->mRootNode->mMeshes[i];
+            auto it = ctx.primitive_map.find(mesh_index);
+            if (it != ctx.primitive_map.end()) {
+                PrimitiveHandle<TSpectral> primitive_handle = it->second;
+                shared_model->root_node_->new_instance(primitive_handle.get().get());
+            } else {
+                HUIRA_LOG_ERROR("ModelLoader::load - Mesh index " + std::to_string(mesh_index) +
+                                " not found in primitive map");
+            }
         }
+    } catch (...) {
+        scene.node_registry_.truncate(n_nodes);
+        scene.primitives_.truncate(n_primitives);
+        scene.geometries_.truncate(n_geometries);
+        scene.vec3_textures_.truncate(n_vec3_textures);
+        scene.mono_textures_.truncate(n_mono_textures);
+        scene.spectral_textures_.truncate(n_spectral_textures);
+        scene.materials_.truncate(n_materials);
+        scene.bsdfs_.truncate(n_bsdfs);
+        scene.models_.truncate(n_models);
+        throw;
     }
 
     HUIRA_LOG_INFO("ModelLoader::load - Model loaded successfully: " + shared_model->get_info());
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 2ef626a..a6b6ce0 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -54,6 +54,18 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
     HUIRA_LOG_INFO("Scene - Deleted: " + object->get_info());
 }
 
+/**
+ * @brief Removes the most recently added objects until only the given number remain.
+ * @param count Number of objects to keep
+ */
+template <typename T>
+void NameRegistry<T>::truncate(std::size_t count)
+{
+    while (objects_.size() > count) {
+        remove(std::shared_ptr<T>(objects_.back()));
+    }
+}
+
 /**
  * @brief Set a new name for an object.
  * @param object Shared pointer to object
-- 
2.43.0


From eafbf3bc9bf952ae5f48364c56627a95df9a25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 127/151] fix: emissive textures of models are loaded, and as
 colours

---
 include/huira_impl/assets/io/model_loader.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 639beb8..cc51907 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -491,9 +491,12 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
             material.set_normal_image(tex.value());
         }
 
-        // Assign emissive:
-        if (auto [tex, _] = load_material_texture_<TSpectral>(
-                ai_mat, aiTextureType_EMISSION_COLOR, ctx, false, false);
+        // Assign emissive (glTF reports it under the legacy EMISSIVE slot):
+        const aiTextureType emissive_type =
+            ai_mat->GetTextureCount(aiTextureType_EMISSION_COLOR) > 0 ? aiTextureType_EMISSION_COLOR
+                                                                      : aiTextureType_EMISSIVE;
+        if (auto [tex, _] =
+                load_material_texture_<TSpectral>(ai_mat, emissive_type, ctx, false, true);
             tex) {
             material.set_emissive_image(tex.value());
         }
-- 
2.43.0


From 5da2b414183e4dd0288708d44cf1deeba42f1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 128/151] fix: embedded colour textures are linearized like
 those in files

---
 include/huira_impl/assets/io/model_loader.ipp | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index cc51907..1f0d60f 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -630,6 +630,20 @@ inline ImageBundle<float> load_mono_from_file_(const fs::path& filepath, bool re
     }
 }
 
+/// Convert sRGB-encoded colour data to linear values
+inline void linearize_(ImageBundle<RGB>& bundle)
+{
+    if (bundle.color_space != ColorSpaceHint::sRGB) {
+        return;
+    }
+    for (std::size_t i = 0; i < bundle.image.size(); ++i) {
+        bundle.image[i][0] = srgb_to_linear(bundle.image[i][0]);
+        bundle.image[i][1] = srgb_to_linear(bundle.image[i][1]);
+        bundle.image[i][2] = srgb_to_linear(bundle.image[i][2]);
+    }
+    bundle.color_space = ColorSpaceHint::Linear;
+}
+
 /// Convert Image<RGB> to Image<Vec3<float>> (direct channel copy, for normal maps)
 inline Image<Vec3<float>> rgb_to_vec3_(const Image<RGB>& rgb)
 {
@@ -647,7 +661,8 @@ template <IsSpectral TSpectral, typename TPixel>
 std::pair<Image<TPixel>, Image<float>>
 convert_embedded_raw_(const aiTexture* embedded,
                       const std::function<TSpectral(RGB)>& spectral_conversion,
-                      bool read_alpha = false)
+                      bool read_alpha = false,
+                      bool is_color_data = false)
 {
     const int w = static_cast<int>(embedded->mWidth);
     const int h = static_cast<int>(embedded->mHeight);
@@ -667,7 +682,9 @@ convert_embedded_raw_(const aiTexture* embedded,
             const float b = static_cast<float>(texel.b) * inv255;
 
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
-                result(x, y) = spectral_conversion(RGB{r, g, b});
+                result(x, y) = spectral_conversion(
+                    is_color_data ? RGB{srgb_to_linear(r), srgb_to_linear(g), srgb_to_linear(b)}
+                                  : RGB{r, g, b});
             } else if constexpr (std::is_same_v<TPixel, float>) {
                 // Luminance-weighted grayscale
                 result(x, y) = 0.2126f * r + 0.7152f * g + 0.0722f * b;
@@ -792,6 +809,11 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                 if constexpr (std::is_same_v<TPixel, TSpectral>) {
                     ImageBundle<RGB> bundle_rgb =
                         load_rgb_from_buffer_(data, size, format, read_alpha);
+
+                    if (is_color_data) {
+                        linearize_(bundle_rgb);
+                    }
+
                     bundle.image =
                         Image<TSpectral>(bundle_rgb.image.width(), bundle_rgb.image.height());
                     for (int y = 0; y < bundle_rgb.image.height(); ++y) {
@@ -820,7 +842,7 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
         } else {
             try {
                 auto [raw_img, raw_alpha] = convert_embedded_raw_<TSpectral, TPixel>(
-                    embedded, ctx.spectral_conversion, read_alpha);
+                    embedded, ctx.spectral_conversion, read_alpha, is_color_data);
                 bundle.image = std::move(raw_img);
                 if (read_alpha && raw_alpha.width() > 0) {
                     bundle.alpha = std::move(raw_alpha);
@@ -850,13 +872,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
             if constexpr (std::is_same_v<TPixel, TSpectral>) {
                 ImageBundle<RGB> bundle_rgb = load_rgb_from_file_(resolved_path, read_alpha);
 
-                if (is_color_data && bundle_rgb.color_space == ColorSpaceHint::sRGB) {
-                    for (std::size_t i = 0; i < bundle_rgb.image.size(); ++i) {
-                        bundle_rgb.image[i][0] = srgb_to_linear(bundle_rgb.image[i][0]);
-                        bundle_rgb.image[i][1] = srgb_to_linear(bundle_rgb.image[i][1]);
-                        bundle_rgb.image[i][2] = srgb_to_linear(bundle_rgb.image[i][2]);
-                    }
-                    bundle_rgb.color_space = ColorSpaceHint::Linear;
+                if (is_color_data) {
+                    linearize_(bundle_rgb);
                 }
 
                 bundle.image =
-- 
2.43.0


From 61c7bfde9dac5ea67f571dd71696fc7a19606d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 129/151] fix: percent-encoded texture paths of models are
 found

---
 include/huira_impl/assets/io/model_loader.ipp | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1f0d60f..a9006dd 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -630,6 +630,34 @@ inline ImageBundle<float> load_mono_from_file_(const fs::path& filepath, bool re
     }
 }
 
+/// Decode the percent-encoded characters of a URI
+inline std::string decode_uri_(const std::string& uri)
+{
+    auto hex = [](char c) {
+        if (c >= '0' && c <= '9') {
+            return c - '0';
+        }
+        if (c >= 'a' && c <= 'f') {
+            return c - 'a' + 10;
+        }
+        if (c >= 'A' && c <= 'F') {
+            return c - 'A' + 10;
+        }
+        return -1;
+    };
+
+    std::string decoded;
+    for (std::size_t i = 0; i < uri.size(); ++i) {
+        if (uri[i] == '%' && i + 2 < uri.size() && hex(uri[i + 1]) >= 0 && hex(uri[i + 2]) >= 0) {
+            decoded += static_cast<char>(hex(uri[i + 1]) * 16 + hex(uri[i + 2]));
+            i += 2;
+        } else {
+            decoded += uri[i];
+        }
+    }
+    return decoded;
+}
+
 /// Convert sRGB-encoded colour data to linear values
 inline void linearize_(ImageBundle<RGB>& bundle)
 {
@@ -862,6 +890,11 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
             resolved_path = fs::path(tex_path_str);
         }
 
+        if (!fs::exists(resolved_path)) {
+            // glTF paths are URIs, where special characters are percent-encoded
+            resolved_path = ctx.base_directory / decode_uri_(tex_path_str);
+        }
+
         if (!fs::exists(resolved_path)) {
             HUIRA_LOG_WARNING("ModelLoader::load_material_texture_ - Texture file not found: " +
                               tex_path_str);
-- 
2.43.0


From 4338b2f6ce82355c8e0f9e33502e5836966069ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 130/151] fix: opaque glTF materials ignore the alpha channel
 of their base colour

---
 include/huira_impl/assets/io/model_loader.ipp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index a9006dd..7177845 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -2,6 +2,7 @@
 #include <cmath>
 #include <string>
 
+#include "assimp/GltfMaterial.h"
 #include "assimp/Importer.hpp"
 #include "assimp/postprocess.h"
 #include "assimp/scene.h"
@@ -404,12 +405,17 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
         std::string name = std::string(ai_mat->GetName().C_Str());
         MaterialHandle<TSpectral> material = ctx.scene->new_material(ct_bsdf, name);
 
+        // An opaque glTF material ignores the alpha channel of its base colour
+        aiString alpha_mode;
+        const bool opaque = ai_mat->Get(AI_MATKEY_GLTF_ALPHAMODE, alpha_mode) == AI_SUCCESS &&
+                            std::string(alpha_mode.C_Str()) == "OPAQUE";
+
         // Assign albedos:
         if (auto [tex, alpha] = load_material_texture_<TSpectral>(
                 ai_mat, aiTextureType_BASE_COLOR, ctx, true, true);
             tex) {
             material.set_albedo_image(tex.value());
-            if (alpha.has_value()) {
+            if (alpha.has_value() && !opaque) {
                 material.set_alpha_image(alpha.value());
             }
         }
@@ -417,7 +423,9 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
         if (ai_mat->Get(AI_MATKEY_BASE_COLOR, base_color) == AI_SUCCESS) {
             material.set_albedo_factor(
                 ctx.spectral_conversion(RGB{base_color.r, base_color.g, base_color.b}));
-            material.set_alpha_factor(base_color.a);
+            if (!opaque) {
+                material.set_alpha_factor(base_color.a);
+            }
         }
 
         // Load roughness and metallic from packed textures:
-- 
2.43.0


From 00413a19fb866114a244d8a1a226bcd9ab320578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 131/151] fix: the normal scale of glTF materials is applied

---
 include/huira_impl/assets/io/model_loader.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 7177845..5538413 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -497,6 +497,11 @@ void ModelLoader<TSpectral>::process_materials_(LoadContext& ctx)
                 ai_mat, aiTextureType_NORMALS, ctx, false, false);
             tex) {
             material.set_normal_image(tex.value());
+            float normal_scale = 1.0f;
+            if (ai_mat->Get(AI_MATKEY_GLTF_TEXTURE_SCALE(aiTextureType_NORMALS, 0),
+                            normal_scale) == AI_SUCCESS) {
+                material.set_normal_factor(normal_scale);
+            }
         }
 
         // Assign emissive (glTF reports it under the legacy EMISSIVE slot):
-- 
2.43.0


From e2296a25ae52e868b594a3c0d21770d5761a1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 132/151] fix: the background turns with the camera during an
 exposure

---
 include/huira_impl/render/renderer.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index f029f5c..838531a 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -101,10 +101,11 @@ inline Transform<float> interpolate_transform(const std::vector<Transform<float>
     // Slerp rotation (assuming you are using glm::quat for rotations)
     auto quat = transforms[idx].rotation.local_to_parent_quaternion();
     auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
+    result.rotation =
+        Rotation<float>::from_local_to_parent(glm::normalize(glm::slerp(quat, next_quat, frac)));
 
     // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
 
     return result;
 }
-- 
2.43.0


From 16480aafca1e3f566ebcd9266e5fa2b675a91b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 133/151] fix: veiling glare keeps the total power of large
 images

---
 include/huira_impl/render/renderer.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 838531a..065826a 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -53,8 +53,13 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
     if (camera->veiling_glare_enabled_) {
         float unveiled = 1.f - camera->veiling_alpha_;
         TSpectral total_power{0.f};
-        for (std::size_t i = 0; i < frame_buffer.received_power().size(); ++i) {
-            total_power += frame_buffer.received_power()[i];
+        // Summed row by row, as one running sum over a large image loses precision:
+        for (int y = 0; y < fb_height; ++y) {
+            TSpectral row_power{0.f};
+            for (int x = 0; frame_buffer.has_received_power() && x < fb_width; ++x) {
+                row_power += frame_buffer.received_power()(x, y);
+            }
+            total_power += row_power;
         }
         TSpectral veiling_bias = camera->veiling_alpha_ * total_power /
                                  static_cast<float>(frame_buffer.received_power().size());
-- 
2.43.0


From a7d34cb17851cd245b2aa975b95d5fa4068817c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 134/151] fix: TIFF pictures with other kinds of colour are not
 read as RGB

---
 include/huira_impl/images/io/tiff_io.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index ca95855..70bd431 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -296,6 +296,22 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         return tiff_data;
     }
 
+    // JPEG data comes as YCbCr unless libtiff is asked to convert it
+    if (photometric == PHOTOMETRIC_YCBCR) {
+        uint16_t compression = COMPRESSION_NONE;
+        TIFFGetFieldDefaulted(tif.get(), TIFFTAG_COMPRESSION, &compression);
+        if (compression == COMPRESSION_JPEG && planar_config == PLANARCONFIG_CONTIG) {
+            TIFFSetField(tif.get(), TIFFTAG_JPEGCOLORMODE, JPEGCOLORMODE_RGB);
+            photometric = PHOTOMETRIC_RGB;
+        }
+    }
+
+    if (photometric != PHOTOMETRIC_MINISBLACK && photometric != PHOTOMETRIC_MINISWHITE &&
+        photometric != PHOTOMETRIC_RGB) {
+        HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported photometric interpretation (" +
+                          std::to_string(static_cast<int>(photometric)) + ")");
+    }
+
     // Detect alpha channel via extra samples
     uint16_t extra_samples_count = 0;
     uint16_t* extra_samples = nullptr;
-- 
2.43.0


From 046b0fb0cea0cbe0f6cbb057f96e91f632c03852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 135/151] fix: TIFF pictures with several extra samples keep
 their colors and alpha

---
 include/huira_impl/images/io/tiff_io.ipp | 27 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 70bd431..c08bf9f 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -40,6 +40,7 @@ struct TIFFData {
 
     std::vector<std::vector<float>> channels;
     std::size_t num_channels = 0;
+    std::size_t num_color_channels = 0;
 
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
     bool has_alpha = false;
@@ -138,7 +139,7 @@ inline toff_t tiff_mem_size_(thandle_t handle) noexcept
  * Uses libtiff via TIFFClientOpen with custom memory I/O callbacks. Extracts
  * all channels as separate floating-point arrays. Handles the following:
  *   - Sample formats: uint8, uint16, uint32, float32
- *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette, Separated (CMYK)
+ *   - Photometric interpretations: MinIsBlack, MinIsWhite, RGB, Palette, YCbCr (JPEG only)
  *   - Storage: both stripped and tiled TIFFs
  *   - Planar configurations: chunky (interleaved) and separate (planar)
  *   - Extra samples: detects associated/unassociated alpha
@@ -276,6 +277,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         tiff_data.width = static_cast<int>(width);
         tiff_data.height = static_cast<int>(height);
         tiff_data.num_channels = 4;
+        tiff_data.num_color_channels = 3;
         tiff_data.photometric = PHOTOMETRIC_RGB;
         tiff_data.has_alpha = true;
         tiff_data.alpha_index = 3;
@@ -320,11 +322,19 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     bool has_alpha = false;
     int alpha_index = -1;
 
-    if (extra_samples_count > 0 && extra_samples != nullptr) {
-        if (extra_samples[0] == EXTRASAMPLE_ASSOCALPHA ||
-            extra_samples[0] == EXTRASAMPLE_UNASSALPHA) {
+    if (extra_samples == nullptr || extra_samples_count >= samples_per_pixel) {
+        extra_samples_count = 0;
+    }
+
+    // The extra samples follow the colors, alpha being any one of them
+    std::size_t num_color_channels =
+        static_cast<std::size_t>(samples_per_pixel) - extra_samples_count;
+
+    for (std::size_t i = 0; i < extra_samples_count && !has_alpha; ++i) {
+        if (extra_samples[i] == EXTRASAMPLE_ASSOCALPHA ||
+            extra_samples[i] == EXTRASAMPLE_UNASSALPHA) {
             has_alpha = true;
-            alpha_index = static_cast<int>(samples_per_pixel) - 1;
+            alpha_index = static_cast<int>(num_color_channels + i);
         }
     }
 
@@ -502,6 +512,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     tiff_data.height = static_cast<int>(height);
     tiff_data.channels = std::move(channels);
     tiff_data.num_channels = num_channels;
+    tiff_data.num_color_channels = num_color_channels;
     tiff_data.photometric = photometric;
     tiff_data.has_alpha = has_alpha;
     tiff_data.alpha_index = alpha_index;
@@ -532,8 +543,7 @@ read_image_tiff_rgb(const unsigned char* data, std::size_t size, bool read_alpha
 {
     auto tiff_data = read_tiff_raw_(data, size);
 
-    std::size_t color_channels =
-        tiff_data.has_alpha ? tiff_data.num_channels - 1 : tiff_data.num_channels;
+    std::size_t color_channels = tiff_data.num_color_channels;
 
     if (color_channels != 1 && color_channels != 3) {
         HUIRA_THROW_ERROR("read_image_tiff_rgb - Cannot interpret " +
@@ -613,8 +623,7 @@ read_image_tiff_mono(const unsigned char* data, std::size_t size, bool read_alph
 {
     auto tiff_data = read_tiff_raw_(data, size);
 
-    std::size_t color_channels =
-        tiff_data.has_alpha ? tiff_data.num_channels - 1 : tiff_data.num_channels;
+    std::size_t color_channels = tiff_data.num_color_channels;
 
     if (color_channels != 1 && color_channels != 3) {
         HUIRA_THROW_ERROR("read_image_tiff_mono - Cannot interpret " +
-- 
2.43.0


From 288f44c32676bee4a2ad4377cacaf43edbb35ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 136/151] fix: dividing by a resolution divides by it, and in
 the precision given

---
 include/huira/core/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira/core/types.hpp b/include/huira/core/types.hpp
index c2938ca..aee35da 100644
--- a/include/huira/core/types.hpp
+++ b/include/huira/core/types.hpp
@@ -162,13 +162,13 @@ struct Resolution {
     }
 
     template <IsFloatingPoint TFloat>
-    Vec2<float> operator/(const Vec2<TFloat>& v) const
+    Vec2<TFloat> operator/(const Vec2<TFloat>& v) const
     {
         return Vec2<TFloat>(static_cast<TFloat>(width) / v.x, static_cast<TFloat>(height) / v.y);
     }
 
     template <IsFloatingPoint TFloat>
-    Vec2<float> operator/(TFloat s) const
+    Vec2<TFloat> operator/(TFloat s) const
     {
         return Vec2<TFloat>(static_cast<TFloat>(width) / s, static_cast<TFloat>(height) / s);
     }
@@ -203,6 +203,6 @@ inline Vec2<TFloat> operator/(const Vec2<TFloat>& v, const Resolution& res)
 template <IsFloatingPoint TFloat>
 inline Vec2<TFloat> operator/(TFloat s, const Resolution& res)
 {
-    return Vec2<TFloat>(static_cast<TFloat>(res.width) / s, static_cast<TFloat>(res.height) / s);
+    return Vec2<TFloat>(s / static_cast<TFloat>(res.width), s / static_cast<TFloat>(res.height));
 }
 } // namespace huira
-- 
2.43.0


From 8dcc3f738b533020f086ae4c865bab0a59bb9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 137/151] fix: fetch-tycho2 keeps no partial download and loses
 no file to a failed one

A download was written straight to its final name: an interrupted one was
skipped as already existing by the next run, a failed one under --force had
already destroyed the file it was to replace, and data lost when the file was
closed (disk full) was reported as success.
---
 apps/huira_cli/commands/fetch_tycho2.cpp | 26 +++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index e710e9e..e8f00d8 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -73,9 +73,15 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     }
 #endif
 
-    std::ofstream out(dest, std::ios::binary);
+    // Download beside the destination and move the file into place once it is
+    // complete, so that an interrupted download is never taken for the file and
+    // a failed one leaves the previous file as it was.
+    fs::path partial = dest;
+    partial += ".part";
+
+    std::ofstream out(partial, std::ios::binary);
     if (!out) {
-        std::cerr << "Failed to open output file: " << dest << "\n";
+        std::cerr << "Failed to open output file: " << partial << "\n";
         curl_easy_cleanup(curl);
         return false;
     }
@@ -91,9 +97,23 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
     curl_easy_cleanup(curl);
     out.close();
 
+    std::error_code ec;
     if (res != CURLE_OK) {
         std::cerr << "Download failed: " << curl_easy_strerror(res) << "\n";
-        fs::remove(dest);
+        fs::remove(partial, ec);
+        return false;
+    }
+
+    if (!out) {
+        std::cerr << "Failed to write output file: " << partial << "\n";
+        fs::remove(partial, ec);
+        return false;
+    }
+
+    fs::rename(partial, dest, ec);
+    if (ec) {
+        std::cerr << "Failed to move " << partial << " to " << dest << ": " << ec.message() << "\n";
+        fs::remove(partial, ec);
         return false;
     }
 
-- 
2.43.0


From d2df5635a482ce752434e60f849de261484d6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 138/151] fix: fetch-tycho2 creates output directories whose
 name holds a dot

make_path() takes a path with an extension for a file and creates its parent
only, after which every download failed.
---
 apps/huira_cli/commands/fetch_tycho2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index e8f00d8..cf8b9b2 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -5,7 +5,6 @@
 #include <stdexcept>
 
 #include "curl/curl.h"
-#include "huira/util/paths.hpp"
 #include "huira_cli/cli.hpp"
 #include "huira_cli/commands/tycho2.hpp"
 #include "huira_cli/compact_output.hpp"
@@ -123,7 +122,8 @@ static bool download_file(const std::string& url, const fs::path& dest, const Co
 int fetch_tycho2(
     const fs::path& output_dir, const Context& ctx, bool force, bool process, bool clean)
 {
-    huira::make_path(output_dir);
+    // output_dir is a directory whatever its name looks like ("sky.d")
+    fs::create_directories(output_dir);
 
     constexpr std::string_view base_url = "https://cdsarc.cds.unistra.fr/viz-bin/nph-Cat/txt?I/259";
 
-- 
2.43.0


From 7fc8a90690e7048950ce90fd49de1567217dd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 139/151] fix: report an error of a command instead of aborting

A catalogue or directory that cannot be read or written ended the program
through std::terminate.
---
 apps/huira_cli/main.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/huira_cli/main.cpp b/apps/huira_cli/main.cpp
index 5b3f672..5143c92 100644
--- a/apps/huira_cli/main.cpp
+++ b/apps/huira_cli/main.cpp
@@ -1,6 +1,14 @@
+#include <exception>
+#include <iostream>
+
 #include "huira_cli/cli.hpp"
 
 int main(int argc, char** argv)
 {
-    return huira::cli::Registry::instance().dispatch(argc, argv);
+    try {
+        return huira::cli::Registry::instance().dispatch(argc, argv);
+    } catch (const std::exception& e) {
+        std::cerr << "Error: " << e.what() << "\n";
+        return 1;
+    }
 }
-- 
2.43.0


From a1dce2dd46cf396dd79eb590b129f1663f8f82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 140/151] fix: show the terminal's cursor again when a command
 fails

process-tycho2 returned with the cursor hidden when a file was missing or could
not be read or written.
---
 apps/huira_cli/commands/fetch_tycho2.cpp   |  2 +-
 apps/huira_cli/commands/process_tycho2.cpp |  2 +-
 apps/huira_cli/progress_bar.hpp            | 21 +++++++++++++++------
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/apps/huira_cli/commands/fetch_tycho2.cpp b/apps/huira_cli/commands/fetch_tycho2.cpp
index cf8b9b2..52bc4a4 100644
--- a/apps/huira_cli/commands/fetch_tycho2.cpp
+++ b/apps/huira_cli/commands/fetch_tycho2.cpp
@@ -141,7 +141,7 @@ int fetch_tycho2(
     std::size_t file_count = tycho2_dat_files.size() + tycho2_suppl_files.size();
 
     // Create progress bar for non-verbose mode
-    std::unique_ptr<indicators::ProgressBar> bar;
+    ProgressBarPtr bar;
     if (!ctx.verbose) {
         bar = make_progress_bar("Tycho-2 Download ", file_count);
     }
diff --git a/apps/huira_cli/commands/process_tycho2.cpp b/apps/huira_cli/commands/process_tycho2.cpp
index 29bcc0d..f2b39ed 100644
--- a/apps/huira_cli/commands/process_tycho2.cpp
+++ b/apps/huira_cli/commands/process_tycho2.cpp
@@ -35,7 +35,7 @@ int process_tycho2(const fs::path& input_dir,
 
     std::size_t file_count = tycho2_dat_files.size() + tycho2_suppl_files.size();
 
-    std::unique_ptr<indicators::ProgressBar> bar;
+    ProgressBarPtr bar;
     if (!ctx.verbose) {
         bar = make_progress_bar("Tycho-2 Process  ", file_count + 1);
     }
diff --git a/apps/huira_cli/progress_bar.hpp b/apps/huira_cli/progress_bar.hpp
index ed88c14..2cd6218 100644
--- a/apps/huira_cli/progress_bar.hpp
+++ b/apps/huira_cli/progress_bar.hpp
@@ -4,11 +4,20 @@
 #include "indicators/progress_bar.hpp"
 
 namespace huira::cli {
-inline std::unique_ptr<indicators::ProgressBar> make_progress_bar(const std::string& title,
-                                                                  size_t total)
+// Shows the cursor again however the command ends
+struct RestoreCursor {
+    void operator()(indicators::ProgressBar* bar) const
+    {
+        indicators::show_console_cursor(true);
+        delete bar;
+    }
+};
+using ProgressBarPtr = std::unique_ptr<indicators::ProgressBar, RestoreCursor>;
+
+inline ProgressBarPtr make_progress_bar(const std::string& title, size_t total)
 {
     indicators::show_console_cursor(false);
-    return std::make_unique<indicators::ProgressBar>(
+    return ProgressBarPtr(new indicators::ProgressBar(
         indicators::option::BarWidth{50},
         indicators::option::Start{"["},
         indicators::option::Fill{"="},
@@ -18,7 +27,7 @@ inline std::unique_ptr<indicators::ProgressBar> make_progress_bar(const std::str
         indicators::option::PrefixText{title},
         indicators::option::ShowPercentage{true},
         indicators::option::ShowElapsedTime{true},
-        indicators::option::MaxProgress{static_cast<int>(total) + 1});
+        indicators::option::MaxProgress{static_cast<int>(total) + 1}));
 }
 
 inline std::string truncate_postfix(const std::string& postfix, size_t max_len = 40)
@@ -29,13 +38,13 @@ inline std::string truncate_postfix(const std::string& postfix, size_t max_len =
     return postfix.substr(0, max_len - 3) + "...";
 }
 
-inline void update_bar(std::unique_ptr<indicators::ProgressBar>& bar, const std::string& postfix)
+inline void update_bar(ProgressBarPtr& bar, const std::string& postfix)
 {
     bar->set_option(indicators::option::PostfixText{truncate_postfix(postfix)});
     bar->tick();
 }
 
-inline void finish_bar(std::unique_ptr<indicators::ProgressBar>& bar, const std::string& postfix)
+inline void finish_bar(ProgressBarPtr& bar, const std::string& postfix)
 {
     bar->set_option(indicators::option::PostfixText{postfix});
     if (!bar->is_completed()) {
-- 
2.43.0


From 8aa7a2b5345a756b953a72b5208663f2ef7e5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 141/151] fix: Python vectors, quaternions and rotations read a
 strided numpy array as contiguous memory

---
 bindings/python/include/huira/core/rotation_py.ipp | 14 +++++++++-----
 bindings/python/include/huira/core/types_py.ipp    |  6 +++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/bindings/python/include/huira/core/rotation_py.ipp b/bindings/python/include/huira/core/rotation_py.ipp
index f915b44..9f0a838 100644
--- a/bindings/python/include/huira/core/rotation_py.ipp
+++ b/bindings/python/include/huira/core/rotation_py.ipp
@@ -74,7 +74,8 @@ inline void bind_rotation(py::module_& m)
             "Create from a 3x3 numpy array (row-major, local-to-parent)")
         .def_static(
             "from_local_to_parent_axis_angle",
-            [](py::array_t<double> axis_arr, const py::object& angle) {
+            [](py::array_t<double, py::array::c_style | py::array::forcecast> axis_arr,
+               const py::object& angle) {
                 auto buf = axis_arr.request();
                 if (buf.ndim != 1 || buf.shape[0] != 3) {
                     throw std::runtime_error("Axis must be a 1-D array of length 3");
@@ -132,7 +133,8 @@ inline void bind_rotation(py::module_& m)
             "Create from a 3x3 numpy array (row-major, parent-to-local)")
         .def_static(
             "from_parent_to_local_axis_angle",
-            [](py::array_t<double> axis_arr, const py::object& angle) {
+            [](py::array_t<double, py::array::c_style | py::array::forcecast> axis_arr,
+               const py::object& angle) {
                 auto buf = axis_arr.request();
                 if (buf.ndim != 1 || buf.shape[0] != 3) {
                     throw std::runtime_error("Axis must be a 1-D array of length 3");
@@ -192,8 +194,10 @@ inline void bind_rotation(py::module_& m)
                     "Create from three orthonormal basis vectors (Vec3)")
         .def_static(
             "from_basis_vectors",
-            [](py::array_t<double> x_arr, py::array_t<double> y_arr, py::array_t<double> z_arr) {
-                auto parse = [](py::array_t<double>& a, const char* name) {
+            [](py::array_t<double, py::array::c_style | py::array::forcecast> x_arr,
+               py::array_t<double, py::array::c_style | py::array::forcecast> y_arr,
+               py::array_t<double, py::array::c_style | py::array::forcecast> z_arr) {
+                auto parse = [](const py::array& a, const char* name) {
                     auto buf = a.request();
                     if (buf.ndim != 1 || buf.shape[0] != 3) {
                         throw std::runtime_error(std::string(name) +
@@ -274,7 +278,7 @@ inline void bind_rotation(py::module_& m)
         // Apply rotation to a numpy vector:
         .def(
             "apply",
-            [](const Rot& r, py::array_t<double> arr) {
+            [](const Rot& r, py::array_t<double, py::array::c_style | py::array::forcecast> arr) {
                 auto buf = arr.request();
                 if (buf.ndim != 1 || buf.shape[0] != 3) {
                     throw std::runtime_error("Expected a 1-D array of length 3");
diff --git a/bindings/python/include/huira/core/types_py.ipp b/bindings/python/include/huira/core/types_py.ipp
index b9f3ff0..54ed9c5 100644
--- a/bindings/python/include/huira/core/types_py.ipp
+++ b/bindings/python/include/huira/core/types_py.ipp
@@ -25,7 +25,7 @@ inline void bind_types(py::module_& m)
     py::class_<Vec3<double>>(m, "Vec3", "3-component vector (double precision)")
         .def(py::init<>())
         .def(py::init<double, double, double>(), py::arg("x"), py::arg("y"), py::arg("z"))
-        .def(py::init([](py::array_t<double> arr) {
+        .def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> arr) {
                  auto buf = arr.request();
                  if (buf.ndim != 1 || buf.shape[0] != 3) {
                      throw std::runtime_error("Vec3 requires a 1-D array of length 3");
@@ -117,7 +117,7 @@ inline void bind_types(py::module_& m)
              py::arg("x"),
              py::arg("y"),
              py::arg("z"))
-        .def(py::init([](py::array_t<double> arr) {
+        .def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> arr) {
                  auto buf = arr.request();
                  if (buf.ndim != 1 || buf.shape[0] != 4) {
                      throw std::runtime_error(
@@ -178,7 +178,7 @@ inline void bind_types(py::module_& m)
              py::arg("y"),
              py::arg("z"),
              py::arg("w"))
-        .def(py::init([](py::array_t<double> arr) {
+        .def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> arr) {
                  auto buf = arr.request();
                  if (buf.ndim != 1 || buf.shape[0] != 4) {
                      throw std::runtime_error(
-- 
2.43.0


From eb0503c7088c1efe221f2b3a5939344cd8fef4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 142/151] fix: Python quantities of different dimensions could
 be added, compared and passed for each other

---
 .../python/include/huira/core/time_py.ipp     |  7 ++--
 .../python/include/huira/units/units_py.ipp   | 34 ++++++++++++++-----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/bindings/python/include/huira/core/time_py.ipp b/bindings/python/include/huira/core/time_py.ipp
index 3d97160..ab8e352 100644
--- a/bindings/python/include/huira/core/time_py.ipp
+++ b/bindings/python/include/huira/core/time_py.ipp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "huira/core/time.hpp"
+#include "huira/units/units_py.ipp"
 #include "pybind11/chrono.h"
 #include "pybind11/operators.h"
 #include "pybind11/pybind11.h"
@@ -95,7 +96,8 @@ inline void bind_time(py::module_& m)
         .def(
             "__add__",
             [](const Time& self, const py::object& delta) -> Time {
-                double seconds = delta.attr("to_si")().cast<double>();
+                double seconds =
+                    detail::si_value_from_py<units::Second::dimension_type>(delta);
                 return self + units::Second(seconds);
             },
             py::arg("delta"),
@@ -114,7 +116,8 @@ inline void bind_time(py::module_& m)
         .def(
             "__sub__",
             [](const Time& self, const py::object& delta) -> Time {
-                double seconds = delta.attr("to_si")().cast<double>();
+                double seconds =
+                    detail::si_value_from_py<units::Second::dimension_type>(delta);
                 return self + units::Second(-seconds);
             },
             py::arg("delta"),
diff --git a/bindings/python/include/huira/units/units_py.ipp b/bindings/python/include/huira/units/units_py.ipp
index 5888179..e5bd34c 100644
--- a/bindings/python/include/huira/units/units_py.ipp
+++ b/bindings/python/include/huira/units/units_py.ipp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string>
+#include <typeinfo>
 
 #include "huira/concepts/numeric_concepts.hpp"
 #include "huira/units/quantity.hpp"
@@ -15,11 +16,24 @@ namespace py = pybind11;
 namespace huira {
 
 namespace detail {
+/**
+ * @brief SI value of a Python quantity, which must have the dimension Dim.
+ */
+template <typename Dim>
+double si_value_from_py(const py::object& obj)
+{
+    if (!py::hasattr(obj, "_dimension") ||
+        obj.attr("_dimension").cast<std::string>() != typeid(Dim).name()) {
+        throw py::type_error("a quantity of another dimension was given");
+    }
+    return obj.attr("to_si")().cast<double>();
+}
+
 template <typename UnitType>
 UnitType unit_from_py(const py::object& obj)
 {
-    double val = obj.attr("to_si")().cast<double>();
     using Dim = typename UnitType::dimension_type;
+    double val = si_value_from_py<Dim>(obj);
     using SIUnit = units::Quantity<Dim, std::ratio<1, 1>>;
     return UnitType(SIUnit(val));
 }
@@ -65,6 +79,8 @@ void bind_quantity_type(py::module& m, const std::string& name)
         .def("to_si",
              static_cast<double (UnitType::*)() const>(&UnitType::to_si),
              "Return the value converted to SI base units (returns float).")
+        .def_property_readonly("_dimension",
+                               [](const UnitType&) { return std::string(typeid(Dim).name()); })
         .def("raw_value", &UnitType::raw_value, "Return the raw value in this unit's scale.")
         .def("__str__", &UnitType::to_string)
         .def("__repr__",
@@ -75,7 +91,7 @@ void bind_quantity_type(py::module& m, const std::string& name)
         .def(
             "__add__",
             [](const UnitType& self, const py::object& other) -> UnitType {
-                double other_si = other.attr("to_si")().cast<double>();
+                double other_si = detail::si_value_from_py<Dim>(other);
                 double result_si = self.to_si() + other_si;
                 using SIUnit = huira::units::Quantity<Dim, std::ratio<1, 1>>;
                 SIUnit si_result(result_si);
@@ -86,7 +102,7 @@ void bind_quantity_type(py::module& m, const std::string& name)
         .def(
             "__sub__",
             [](const UnitType& self, const py::object& other) -> UnitType {
-                double other_si = other.attr("to_si")().cast<double>();
+                double other_si = detail::si_value_from_py<Dim>(other);
                 double result_si = self.to_si() - other_si;
                 using SIUnit = huira::units::Quantity<Dim, std::ratio<1, 1>>;
                 SIUnit si_result(result_si);
@@ -106,35 +122,37 @@ void bind_quantity_type(py::module& m, const std::string& name)
         .def(
             "__eq__",
             [](const UnitType& self, const py::object& other) {
-                return self.to_si() == other.attr("to_si")().cast<double>();
+                return py::hasattr(other, "_dimension") &&
+                       other.attr("_dimension").cast<std::string>() == typeid(Dim).name() &&
+                       self.to_si() == other.attr("to_si")().cast<double>();
             },
             py::arg("other"),
             "Equal comparison via SI values.")
         .def(
             "__lt__",
             [](const UnitType& self, const py::object& other) {
-                return self.to_si() < other.attr("to_si")().cast<double>();
+                return self.to_si() < detail::si_value_from_py<Dim>(other);
             },
             py::arg("other"),
             "Less-than comparison via SI values.")
         .def(
             "__le__",
             [](const UnitType& self, const py::object& other) {
-                return self.to_si() <= other.attr("to_si")().cast<double>();
+                return self.to_si() <= detail::si_value_from_py<Dim>(other);
             },
             py::arg("other"),
             "Less-or-equal comparison via SI values.")
         .def(
             "__gt__",
             [](const UnitType& self, const py::object& other) {
-                return self.to_si() > other.attr("to_si")().cast<double>();
+                return self.to_si() > detail::si_value_from_py<Dim>(other);
             },
             py::arg("other"),
             "Greater-than comparison via SI values.")
         .def(
             "__ge__",
             [](const UnitType& self, const py::object& other) {
-                return self.to_si() >= other.attr("to_si")().cast<double>();
+                return self.to_si() >= detail::si_value_from_py<Dim>(other);
             },
             py::arg("other"),
             "Greater-or-equal comparison via SI values.");
-- 
2.43.0


From 1d071dd3558146b2761ee2f13ce6ff7e1c3a223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 143/151] fix: the implicit unit conversions of the Python
 module had no constructor to use

---
 .../python/include/huira/units/units_py.ipp   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bindings/python/include/huira/units/units_py.ipp b/bindings/python/include/huira/units/units_py.ipp
index e5bd34c..e5bc277 100644
--- a/bindings/python/include/huira/units/units_py.ipp
+++ b/bindings/python/include/huira/units/units_py.ipp
@@ -76,6 +76,14 @@ void bind_quantity_type(py::module& m, const std::string& name)
         .def(py::init<double>(), py::arg("value"), ("Create a " + name + " from a float.").c_str())
         .def(py::init<int>(), py::arg("value"), ("Create a " + name + " from an int.").c_str())
         .def(py::init<float>(), py::arg("value"), ("Create a " + name + " from a float.").c_str())
+        .def(py::init([](const py::object& other) {
+                 if (!py::hasattr(other, "_dimension")) {
+                     return UnitType(static_cast<double>(py::float_(other)));
+                 }
+                 return detail::unit_from_py<UnitType>(other);
+             }),
+             py::arg("other"),
+             ("Create a " + name + " from another unit of the same dimension.").c_str())
         .def("to_si",
              static_cast<double (UnitType::*)() const>(&UnitType::to_si),
              "Return the value converted to SI base units (returns float).")
@@ -380,6 +388,19 @@ static void bind_units(py::module& m)
                               huira::units::MilesPerHour,
                               huira::units::KilometersPerHour>(m);
 
+    // Angular Rate -> RadiansPerSecond
+    register_unit_conversions<huira::units::RadiansPerSecond, huira::units::DegreesPerSecond>(m);
+
+    // Diopter
+    register_unit_conversions<huira::units::Diopter,
+                              huira::units::Millidiopter,
+                              huira::units::Microdiopter>(m);
+
+    // Area -> SquareMeter
+    register_unit_conversions<huira::units::SquareMeter,
+                              huira::units::SquareCentimeter,
+                              huira::units::SquareMillimeter>(m);
+
     // Frequency -> Hertz
     register_unit_conversions<huira::units::Hertz,
                               huira::units::Kilohertz,
-- 
2.43.0


From d58fd7446ec3d1c90007b9867ebaa91bb4c8fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 144/151] fix: Python set_intrinsic_matrix took a matrix type
 that Python does not have

---
 bindings/python/include/huira/handles/camera_handle_py.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/include/huira/handles/camera_handle_py.ipp b/bindings/python/include/huira/handles/camera_handle_py.ipp
index 2758ff1..e910176 100644
--- a/bindings/python/include/huira/handles/camera_handle_py.ipp
+++ b/bindings/python/include/huira/handles/camera_handle_py.ipp
@@ -83,10 +83,10 @@ inline void bind_camera_model_handle(py::module_& m)
         .def(
             "set_intrinsic_matrix",
             [](HandleType& self,
-               const Mat3<float>& matrix,
+               const Mat3<double>& matrix,
                std::pair<int, int> res,
                const py::object& anchor_fl) {
-                self.set_intrinsic_matrix(matrix,
+                self.set_intrinsic_matrix(Mat3<float>(matrix),
                                           Resolution{res.first, res.second},
                                           detail::unit_from_py<units::Millimeter>(anchor_fl));
             },
-- 
2.43.0


From f6bfc4fa78f6d6f40952b9e5b9b0883f30660bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 145/151] fix: the spectral image classes of the Python module
 had dots in their names

---
 bindings/python/src/huira_module.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/huira_module.cpp b/bindings/python/src/huira_module.cpp
index 555dc28..166f5b9 100644
--- a/bindings/python/src/huira_module.cpp
+++ b/bindings/python/src/huira_module.cpp
@@ -78,12 +78,14 @@ inline void bind_spectral(py::module_& m)
     huira::bind_medium_handle<TSpectral>(m);
 
     // --- Images ---
-    std::string img_name = "Image_" + m.attr("__name__").cast<std::string>();
+    std::string module_name = m.attr("__name__").cast<std::string>();
+    module_name = module_name.substr(module_name.rfind('.') + 1);
+    std::string img_name = "Image_" + module_name;
     huira::bind_image<TSpectral>(m, img_name.c_str());
-    huira::bind_image_bundle<TSpectral>(m, "ImageBundle_" + m.attr("__name__").cast<std::string>());
+    huira::bind_image_bundle<TSpectral>(m, "ImageBundle_" + module_name);
 
     // --- Spectral texture handle ---
-    std::string tex_name = "TextureHandle_" + m.attr("__name__").cast<std::string>();
+    std::string tex_name = "TextureHandle_" + module_name;
     huira::bind_texture_handle<TSpectral>(m, tex_name.c_str());
 
     // --- Rendering ---
-- 
2.43.0


From d0515bacf6e9f47bbbe44942539ca5805ef3d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 146/151] fix: the Python module misspelt SpectralMilliwatts
 and lacked the spectral radiance unit

---
 bindings/python/include/huira/units/units_py.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/include/huira/units/units_py.ipp b/bindings/python/include/huira/units/units_py.ipp
index e5bc277..4051ee0 100644
--- a/bindings/python/include/huira/units/units_py.ipp
+++ b/bindings/python/include/huira/units/units_py.ipp
@@ -445,7 +445,7 @@ void bind_spectral_units_for_type(py::module& m)
 {
     // Power Units (spectral)
     bind_spectral_quantity_type<huira::units::SpectralMilliwatts<TSpectral>>(m,
-                                                                             "SpectralMillwatts");
+                                                                             "SpectralMilliwatts");
     bind_spectral_quantity_type<huira::units::SpectralWatts<TSpectral>>(m, "SpectralWatts");
     bind_spectral_quantity_type<huira::units::SpectralKilowatts<TSpectral>>(m, "SpectralKilowatts");
     bind_spectral_quantity_type<huira::units::SpectralMegawatts<TSpectral>>(m, "SpectralMegawatts");
@@ -454,5 +454,9 @@ void bind_spectral_units_for_type(py::module& m)
     // Irradiance Units (spectral)
     bind_spectral_quantity_type<huira::units::SpectralWattsPerMeterSquared<TSpectral>>(
         m, "SpectralWattsPerMeterSquared");
+
+    // Radiance Units (spectral)
+    bind_spectral_quantity_type<huira::units::SpectralWattsPerMeterSquaredSteradian<TSpectral>>(
+        m, "SpectralWattsPerMeterSquaredSteradian");
 }
 } // namespace huira
-- 
2.43.0


From 21a5ba51bc14b2aded37837919fd1edd66b3cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 147/151] fix: huira.units lacked the area units and Milliwatt

---
 bindings/python/huira/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/huira/units.py b/bindings/python/huira/units.py
index b98ab8c..91302bf 100644
--- a/bindings/python/huira/units.py
+++ b/bindings/python/huira/units.py
@@ -48,8 +48,11 @@ from ._huira import (
     # Energy
     Joule, Kilojoule, Megajoule, ElectronVolt,
 
+    # Area
+    SquareMeter, SquareCentimeter, SquareMillimeter,
+
     # Power
-    Watt, Kilowatt, Megawatt, Gigawatt,
+    Milliwatt, Watt, Kilowatt, Megawatt, Gigawatt,
 
     # Charge
     Coulomb,
-- 
2.43.0


From 3d64938b982d2c0540874c893da76723b5a1d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 148/151] fix: Python TextureHandle.resolution returned a type
 that Python does not have

---
 .../include/huira/handles/materials/texture_handle_py.ipp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/include/huira/handles/materials/texture_handle_py.ipp b/bindings/python/include/huira/handles/materials/texture_handle_py.ipp
index a411586..8a22a2e 100644
--- a/bindings/python/include/huira/handles/materials/texture_handle_py.ipp
+++ b/bindings/python/include/huira/handles/materials/texture_handle_py.ipp
@@ -17,7 +17,10 @@ inline void bind_texture_handle(py::module_& m, const char* name = "TextureHandl
 
     auto cls = py::class_<HandleType>(m, name)
                    .def("resolution",
-                        &HandleType::resolution,
+                        [](const HandleType& self) {
+                            auto r = self.resolution();
+                            return py::make_tuple(r.width, r.height);
+                        },
                         "Return the resolution of the underlying texture")
                    .def("__bool__", &HandleType::valid)
                    .def("__repr__", [](const HandleType&) { return "<TextureHandle>"; });
-- 
2.43.0


From 739301ec5d67bdad7933d7963d7cd81fb2dba79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 149/151] fix: Python get_parent returned a handle type that
 Python does not have

---
 .../include/huira/handles/scene/instance_handle_py.ipp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bindings/python/include/huira/handles/scene/instance_handle_py.ipp b/bindings/python/include/huira/handles/scene/instance_handle_py.ipp
index 285b991..ebdcd12 100644
--- a/bindings/python/include/huira/handles/scene/instance_handle_py.ipp
+++ b/bindings/python/include/huira/handles/scene/instance_handle_py.ipp
@@ -20,5 +20,14 @@ inline void bind_instance_handle(py::module_& m)
 
     bind_handle_methods<Instance<TSpectral>>(cls);
     bind_node_handle_methods<TSpectral, Instance<TSpectral>>(cls);
+
+    // What get_parent() returns
+    using NodeHandleType = NodeHandle<TSpectral, Node<TSpectral>>;
+    auto node_cls = py::class_<NodeHandleType>(m, "NodeHandle")
+                        .def("__bool__", &NodeHandleType::valid)
+                        .def("__repr__", [](const NodeHandleType&) { return "<NodeHandle>"; });
+
+    bind_handle_methods<Node<TSpectral>>(node_cls);
+    bind_node_handle_methods<TSpectral, Node<TSpectral>>(node_cls);
 }
 } // namespace huira
-- 
2.43.0


From 2c5b990fe3bf16a77b5b61616dad760ba17d6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 150/151] fix: the Python module lacked the vector types of its
 rays, hits, interactions and images

---
 .../python/include/huira/core/types_py.ipp    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bindings/python/include/huira/core/types_py.ipp b/bindings/python/include/huira/core/types_py.ipp
index 54ed9c5..64821df 100644
--- a/bindings/python/include/huira/core/types_py.ipp
+++ b/bindings/python/include/huira/core/types_py.ipp
@@ -63,6 +63,26 @@ inline void bind_types(py::module_& m)
 
         .def("__repr__", [](const Vec3<double>& v) { return vec_to_string<3, double>(v); });
 
+    // -----------------------------------------------------------------
+    // Vec3<float> and Vec2<float>: what rays, hits, interactions and images use
+    // -----------------------------------------------------------------
+    py::class_<Vec3<float>>(m, "Vec3f", "3-component vector (single precision)")
+        .def(py::init<>())
+        .def(py::init<float, float, float>(), py::arg("x"), py::arg("y"), py::arg("z"))
+        .def(py::init([](const Vec3<double>& v) { return Vec3<float>(v); }), py::arg("vector"))
+        .def_readwrite("x", &Vec3<float>::x)
+        .def_readwrite("y", &Vec3<float>::y)
+        .def_readwrite("z", &Vec3<float>::z)
+        .def("__repr__", [](const Vec3<float>& v) { return vec_to_string<3, float>(v); });
+    py::implicitly_convertible<Vec3<double>, Vec3<float>>();
+
+    py::class_<Vec2<float>>(m, "Vec2f", "2-component vector (single precision)")
+        .def(py::init<>())
+        .def(py::init<float, float>(), py::arg("x"), py::arg("y"))
+        .def_readwrite("x", &Vec2<float>::x)
+        .def_readwrite("y", &Vec2<float>::y)
+        .def("__repr__", [](const Vec2<float>& v) { return vec_to_string<2, float>(v); });
+
     // -----------------------------------------------------------------
     // Mat3<double>
     // -----------------------------------------------------------------
-- 
2.43.0


From 30d4e5481f0a999018d8dca5980982c39b74b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:10 +0000
Subject: [PATCH 151/151] fix: the repr of a Python image read the name of its
 class after that was gone

---
 bindings/python/include/huira/images/image_py.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/include/huira/images/image_py.ipp b/bindings/python/include/huira/images/image_py.ipp
index eccd066..8076d0b 100644
--- a/bindings/python/include/huira/images/image_py.ipp
+++ b/bindings/python/include/huira/images/image_py.ipp
@@ -195,9 +195,9 @@ void bind_image(py::module_& m, const char* class_name)
              py::arg("channel"),
              "Extract a single channel as an Image_f32 (0-indexed).")
 
-        .def("__repr__", [class_name](const Img& img) {
+        .def("__repr__", [name = std::string(class_name)](const Img& img) {
             std::ostringstream os;
-            os << class_name << "(" << img.width() << "x" << img.height() << ", channels=" << C
+            os << name << "(" << img.width() << "x" << img.height() << ", channels=" << C
                << ")";
             return os.str();
         });
-- 
2.43.0

