From 4fe6db0db2054d43c74915da0707f79b32c5ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:24 +0000
Subject: [PATCH 01/31] fix: keep existing rows when a ParticleDat is added
 with a cell occupancy hint

---
 include/neso_particles/particle_group.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/particle_group.hpp b/include/neso_particles/particle_group.hpp
index d3dc6b6..b1bb012 100644
--- a/include/neso_particles/particle_group.hpp
+++ b/include/neso_particles/particle_group.hpp
@@ -1,6 +1,7 @@
 #ifndef _NESO_PARTICLES_PARTICLE_GROUP
 #define _NESO_PARTICLES_PARTICLE_GROUP
 
+#include <algorithm>
 #include <cstdint>
 #include <map>
 #include <memory>
@@ -302,10 +303,20 @@ protected:
     this->particle_dat_versions[key] = value;
 
     if (this->npart_cell_hint > 0) {
+      // Allocate space for the hinted number of particles. The existing rows
+      // must not be dropped if there are more of them than the hint.
       for (int cellx = 0; cellx < this->ncell; cellx++) {
-        particle_dat->realloc(cellx, static_cast<int>(this->npart_cell_hint));
+        particle_dat->realloc(
+            cellx, std::max(static_cast<int>(this->npart_cell_hint),
+                            static_cast<int>(this->h_npart_cell.ptr[cellx])));
       }
       particle_dat->cell_dat.wait_set_nrow();
+      // The hint only applies to the allocation, the number of rows in use is
+      // the number of particles in the cell.
+      for (int cellx = 0; cellx < this->ncell; cellx++) {
+        particle_dat->realloc(cellx,
+                              static_cast<int>(this->h_npart_cell.ptr[cellx]));
+      }
     }
     this->particle_group_pointer_map->invalidate();
   }
-- 
2.43.0


From 3552db6d3765ce54f02bddb2dcfc0fc6d1811d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 02/31] fix: recreate a sub group when a parent sub group was
 recreated

A sub group of a static sub group kept its old particles after the parent
stopped being static, as the parent was recreated without any change to the
properties or the particle group the child tracks.
---
 .../sub_group_selector_base.hpp               |  5 ++++
 .../sub_group_selector_base.cpp               | 23 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
index 6d5598a..2047d70 100644
--- a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
+++ b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
@@ -81,6 +81,11 @@ protected:
       std::shared_ptr<ParticleSubGroupImplementation::SubGroupSelectorBase>
           selector);
 
+  // The parent sub groups of this selector and the version of each parent this
+  // selector was last created from.
+  std::vector<std::pair<std::shared_ptr<ParticleSubGroup>, std::int64_t>>
+      parent_versions;
+
   void add_sym_dependency(Sym<INT> sym);
   void add_sym_dependency(Sym<REAL> sym);
   void printing_create_outer_start();
diff --git a/src/particle_sub_group/sub_group_selector_base.cpp b/src/particle_sub_group/sub_group_selector_base.cpp
index d86f82d..c19b7c2 100644
--- a/src/particle_sub_group/sub_group_selector_base.cpp
+++ b/src/particle_sub_group/sub_group_selector_base.cpp
@@ -81,7 +81,16 @@ bool SubGroupSelectorBase::get(Selection *selection) {
   const bool bool_group =
       this->particle_group->check_validation(this->particle_group_version);
 
-  if (bool_dats || bool_group) {
+  // A parent may have been recreated for a reason this selector does not track,
+  // e.g. the parent is no longer static.
+  bool bool_parent = false;
+  for (auto &[parent, version] : this->parent_versions) {
+    parent->create_if_required();
+    bool_parent = bool_parent || (parent->get_version() != version);
+    version = parent->get_version();
+  }
+
+  if (bool_dats || bool_group || bool_parent) {
     this->printing_create_inner_start(bool_dats, bool_group);
     this->create(selection);
     this->printing_create_inner_end();
@@ -100,6 +109,17 @@ bool SubGroupSelectorBase::update_required(bool *bool_dats, bool *bool_group) {
   *bool_group = this->particle_group->check_validation(
       this->particle_group_version, false);
 
+  // The particles in a parent may differ from the particles this selector was
+  // created from.
+  for (auto &[parent, version] : this->parent_versions) {
+    bool parent_dats = false;
+    bool parent_group = false;
+    *bool_dats = (*bool_dats) || (parent->get_version() != version) ||
+                 (!parent->static_status() &&
+                  parent->selector->update_required(&parent_dats,
+                                                    &parent_group));
+  }
+
   return (*bool_dats) || (*bool_group);
 }
 SubGroupSelectorBase::SubGroupSelectorBase(
@@ -148,6 +168,7 @@ void SubGroupSelectorBase::add_parent_dependencies(
     std::shared_ptr<ParticleSubGroup> parent) {
   if (parent != nullptr) {
     this->add_parent_dependencies(parent->selector);
+    this->parent_versions.push_back({parent, 0});
   }
 }
 
-- 
2.43.0


From 46037d1afa8c2b3586989c5400ff98221e23611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:02 +0000
Subject: [PATCH 03/31] fix: keep the particles of a static partition when its
 siblings are updated

The partitions of particle_group_partition share one partitioner. Updating any
of them overwrote the map of a static partition, whose counts were not updated,
so that a loop over it visited wrong rows or rows which do not exist.
---
 .../particle_group_partition.hpp              | 13 ++++++++
 .../sub_group_selector_base.hpp               |  5 +++
 .../particle_group_partition.cpp              | 33 +++++++++++++++++--
 .../particle_sub_group_base.cpp               |  1 +
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/particle_sub_group/particle_group_partition.hpp b/include/neso_particles/particle_sub_group/particle_group_partition.hpp
index 268ae8c..5524833 100644
--- a/include/neso_particles/particle_sub_group/particle_group_partition.hpp
+++ b/include/neso_particles/particle_sub_group/particle_group_partition.hpp
@@ -47,6 +47,11 @@ public:
   std::function<void(Selection *created_selection)> create_handle;
   std::function<void()> destroy_handle;
 
+  /// If the ParticleSubGroup is static then its map must not be recreated when
+  /// the other partitions are updated.
+  bool is_static{false};
+  virtual void static_status_changed(const bool is_static) override;
+
   virtual void create(Selection *created_selection) override;
   std::shared_ptr<SubGroupParticleMap> get_sub_group_particle_map();
   void set_create_handle(
@@ -72,6 +77,9 @@ public:
  */
 class ParticleGroupPartitioner
     : public ParticleSubGroupImplementation::SubGroupSelectorBase {
+
+  friend class ParticleGroupPartitionSelector;
+
 protected:
 #ifdef NESO_PARTICLES_TEST_COMPILATION
 public:
@@ -95,6 +103,11 @@ public:
 
   void create_indexed(const std::size_t index, Selection *created_selection);
 
+  /**
+   * Recreate all the partitions when a partition is next used.
+   */
+  void invalidate();
+
   /**
    * This is the overrided method which is called by get to create all the
    * partitions. The pointer passed should be nullptr as the corresponding class
diff --git a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
index 2047d70..036e59d 100644
--- a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
+++ b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
@@ -94,6 +94,11 @@ protected:
   void printing_create_inner_end();
   virtual inline void create(Selection *created_selection) = 0;
 
+  /// Called when the static status of the ParticleSubGroup using this selector
+  /// changes.
+  virtual inline void
+  static_status_changed([[maybe_unused]] const bool is_static) {}
+
 public:
   // The ParticleGroup this selector operates on.
   ParticleGroupSharedPtr particle_group{nullptr};
diff --git a/src/particle_sub_group/particle_group_partition.cpp b/src/particle_sub_group/particle_group_partition.cpp
index 87e81a4..2dd96a4 100644
--- a/src/particle_sub_group/particle_group_partition.cpp
+++ b/src/particle_sub_group/particle_group_partition.cpp
@@ -6,7 +6,23 @@ namespace NESO::Particles {
 namespace ParticleSubGroupImplementation {
 
 void ParticleGroupPartitionSelector::create(Selection *created_selection) {
+  // A static partition is only created if that is explicitly requested.
+  const bool was_static = this->is_static;
+  if (was_static) {
+    this->particle_group_partitioner->invalidate();
+    this->is_static = false;
+  }
   this->create_handle(created_selection);
+  this->is_static = was_static;
+}
+
+void ParticleGroupPartitionSelector::static_status_changed(
+    const bool is_static) {
+  this->is_static = is_static;
+  if (!is_static) {
+    // This partition was not updated whilst it was static.
+    this->particle_group_partitioner->invalidate();
+  }
 }
 
 std::shared_ptr<SubGroupParticleMap>
@@ -23,6 +39,16 @@ void ParticleGroupPartitionSelector::set_destroy_handle(
   this->destroy_handle = destroy_handle;
 }
 
+void ParticleGroupPartitioner::invalidate() {
+  this->particle_group_version = 0;
+  for (auto &px : this->partition_selectors) {
+    auto selector = px.lock();
+    if ((selector != nullptr) && (!selector->is_static)) {
+      selector->particle_group_version = 0;
+    }
+  }
+}
+
 void ParticleGroupPartitioner::create_indexed(const std::size_t index,
                                               Selection *created_selection) {
   NESOASSERT(index < this->num_partitions, "Bad index passed.");
@@ -44,11 +70,14 @@ void ParticleGroupPartitioner::create(Selection *created_selection) {
       this->particle_group->domain->mesh->get_cell_count());
 
   // Find once at the begining of this function which of the selectors
-  // actually still exist and have not been deleted.
+  // actually still exist and have not been deleted. Partitions which are static
+  // must keep their existing map.
   std::vector<int> still_exists(this->num_partitions);
   for (std::size_t px = 0; px < this->num_partitions; px++) {
+    auto selector = this->partition_selectors.at(px).lock();
     still_exists[px] =
-        static_cast<int>(!this->sub_group_particle_maps.at(px).expired());
+        static_cast<int>((selector != nullptr) && (!selector->is_static) &&
+                         (!this->sub_group_particle_maps.at(px).expired()));
   }
   this->la_still_exists->set(still_exists);
 
diff --git a/src/particle_sub_group/particle_sub_group_base.cpp b/src/particle_sub_group/particle_sub_group_base.cpp
index eb85767..976f037 100644
--- a/src/particle_sub_group/particle_sub_group_base.cpp
+++ b/src/particle_sub_group/particle_sub_group_base.cpp
@@ -118,6 +118,7 @@ bool ParticleSubGroup::static_status(const std::optional<bool> status) {
         this->create_if_required();
       }
       this->is_static = new_is_static;
+      this->selector->static_status_changed(new_is_static);
     }
   }
   return this->is_static;
-- 
2.43.0


From 8edf60b46150b3a117ea3ba6306962030cb7cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:45 +0000
Subject: [PATCH 04/31] fix: pair loop execute(cell) visited every later cell
 as well

---
 include/neso_particles/pair_loop/particle_pair_loop_args.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
index 548834f..e5385bc 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
@@ -266,6 +266,8 @@ protected:
 
     if (cell_start != std::nullopt) {
       cell_start_actual = cell_start.value();
+      // Only the starting cell passed implies a launch over that single cell.
+      cell_end_actual = cell_start_actual + 1;
     }
     if (cell_end != std::nullopt) {
       cell_end_actual = cell_end.value();
-- 
2.43.0


From 1fefd7247819db91e8069d52f3a6f539f8375e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:45 +0000
Subject: [PATCH 05/31] fix: empty pair list reported -1 pairs and shifted pair
 indices of other lists

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..97c301d 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -245,9 +245,9 @@ void CellwisePairListSimple::clear() {
     std::fill(this->h_pair_counts.begin(), this->h_pair_counts.end(), 0);
     e0.wait_and_throw();
   }
-  this->max_pair_count = -1;
-  this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->max_pair_count = 0;
+  this->max_wave_count = 0;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From 8b3bddb4372d411eb7575b67aeea8ede9543c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:45 +0000
Subject: [PATCH 06/31] fix: NTC pair sampler dereferenced the missing
 selection of a whole particle group

---
 src/algorithms/dsmc/pair_sampler_ntc.cpp | 40 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/algorithms/dsmc/pair_sampler_ntc.cpp b/src/algorithms/dsmc/pair_sampler_ntc.cpp
index b1847a6..0b1c18e 100644
--- a/src/algorithms/dsmc/pair_sampler_ntc.cpp
+++ b/src/algorithms/dsmc/pair_sampler_ntc.cpp
@@ -99,6 +99,14 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
   auto selection_b = sub_group_b->get_selection();
 
   const auto *k_npart_cell = particle_group->mpi_rank_dat->d_npart_cell;
+
+  // A sub group which is the entire particle group holds no selection map.
+  const bool k_a_is_whole = sub_group_a->is_entire_particle_group();
+  const bool k_b_is_whole = sub_group_b->is_entire_particle_group();
+  const int *k_npart_cell_a =
+      k_a_is_whole ? k_npart_cell : selection_a.d_npart_cell;
+  const int *k_npart_cell_b =
+      k_b_is_whole ? k_npart_cell : selection_b.d_npart_cell;
   const auto *h_npart_cell = particle_group->mpi_rank_dat->h_npart_cell;
 
   auto d_max_wave_count =
@@ -144,8 +152,8 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
             const int cell = idx.get_global_id(0);
             const int npart_cell = k_npart_cell[cell];
             const int npairs = k_pair_counts[cell];
-            const int npart_cell_a = selection_a.d_npart_cell[cell];
-            const int npart_cell_b = selection_b.d_npart_cell[cell];
+            const int npart_cell_a = k_npart_cell_a[cell];
+            const int npart_cell_b = k_npart_cell_b[cell];
             const int sample_range_a = npart_cell_a;
             const int sample_range_b = a_is_b ? npart_cell_a - 1 : npart_cell_b;
             const REAL scale_a = static_cast<REAL>(sample_range_a);
@@ -175,10 +183,16 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                const int i3 = selection_a.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, i2);
-                const int j3 = selection_b.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, j2);
+                const int i3 =
+                    k_a_is_whole
+                        ? i2
+                        : selection_a.d_map_cells_to_particles
+                              .map_loop_layer_to_layer(cell, i2);
+                const int j3 =
+                    k_b_is_whole
+                        ? j2
+                        : selection_b.d_map_cells_to_particles
+                              .map_loop_layer_to_layer(cell, j2);
 
                 const int wave_i = la_flags[i3];
                 const int wave_j = la_flags[j3];
@@ -229,8 +243,8 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
             const int local_range = idx.get_group().get_local_linear_range();
             const int npart_cell = k_npart_cell[cell];
             const int npairs = k_pair_counts[cell];
-            const int npart_cell_a = selection_a.d_npart_cell[cell];
-            const int npart_cell_b = selection_b.d_npart_cell[cell];
+            const int npart_cell_a = k_npart_cell_a[cell];
+            const int npart_cell_b = k_npart_cell_b[cell];
             const int sample_range_a = npart_cell_a;
             const int sample_range_b = a_is_b ? npart_cell_a - 1 : npart_cell_b;
             const REAL scale_a = static_cast<REAL>(sample_range_a);
@@ -267,10 +281,12 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                i3 = selection_a.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, i2);
-                j3 = selection_b.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, j2);
+                i3 = k_a_is_whole ? i2
+                                  : selection_a.d_map_cells_to_particles
+                                        .map_loop_layer_to_layer(cell, i2);
+                j3 = k_b_is_whole ? j2
+                                  : selection_b.d_map_cells_to_particles
+                                        .map_loop_layer_to_layer(cell, j2);
 
                 const int flag_i =
                     sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From 81a7baed9b49524d29ffe4649149321d10e42a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:58 +0000
Subject: [PATCH 07/31] fix: pair list could not be filled again after it was
 set from waves and cleared

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index 97c301d..fd051fb 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -230,6 +230,9 @@ void CellwisePairListSimple::set(CellwisePairListHostSharedPtr pair_list) {
 
 void CellwisePairListSimple::clear() {
   if (this->cell_count > 0) {
+    // A previous call to set may have resized these for a number of waves.
+    this->h_pair_counts.resize(this->d_pair_counts->size);
+
     auto k_wave_count = this->d_wave_count->ptr;
     auto k_pair_counts = this->d_pair_counts->ptr;
     auto k_wave_offsets = this->d_wave_offsets->ptr;
-- 
2.43.0


From c04ad26599118b6856aee1762474d889086f2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 08/31] fix: set_recv truncated the received elements to int

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..aff9364 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (auto ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From c89e02c9dfcec153da3ac44e65aefae1bb8b9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 09/31] fix: H5Part::read left a dataspace open

---
 src/particle_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 7624b9a..b274fa5 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -94,6 +94,7 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
     hsize_t dims[1];
     H5CHK(H5Sget_simple_extent_dims(filespace, dims, NULL));
+    H5CHK(H5Sclose(filespace));
     H5CHK(H5Dclose(dataset));
     npart_total = dims[0];
   }
-- 
2.43.0


From 14ebd97943b3017bfdccaa8697b7301fdb578578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 10/31] fix: H5Part::read failed for a step that was written
 without particles

---
 src/particle_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index b274fa5..35a98ef 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -81,9 +81,12 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
   hid_t group_step;
   H5CHK(group_step = H5Gopen(this->file_id, step_name.c_str(), H5P_DEFAULT));
-  INT npart_total;
+  INT npart_total = 0;
 
-  {
+  // A step written when there were no particles does not contain any datasets.
+  htri_t step_has_data;
+  H5CHK(step_has_data = H5Lexists(group_step, "x", H5P_DEFAULT));
+  if (step_has_data > 0) {
     hid_t dataset;
     H5CHK(dataset = H5Dopen(group_step, "x", H5P_DEFAULT));
     hid_t filespace;
-- 
2.43.0


From 4c2e536513f19ea1c31285b69cc44bdb2900fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 11/31] fix: H5Part ignored failures to create files, steps and
 datasets

---
 include/neso_particles/particle_io.hpp | 20 ++++++++++++--------
 src/particle_io.cpp                    |  3 ++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/neso_particles/particle_io.hpp b/include/neso_particles/particle_io.hpp
index b2c06e1..48fbbd1 100644
--- a/include/neso_particles/particle_io.hpp
+++ b/include/neso_particles/particle_io.hpp
@@ -92,8 +92,10 @@ private:
       // hid_t dset = H5Dcreate1(group_step, name.c_str(), memtypeid(dat),
       //                         filespace, H5P_DEFAULT);
 
-      hid_t dset = H5Dcreate2(group_step, name.c_str(), memtypeid(dat),
-                              filespace, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+      hid_t dset;
+      H5CHK(dset = H5Dcreate2(group_step, name.c_str(), memtypeid(dat),
+                              filespace, H5P_DEFAULT, H5P_DEFAULT,
+                              H5P_DEFAULT));
       H5CHK(H5Dwrite(dset, memtypeid(dat), memspace, filespace, dxpl,
                      dh_buffer->h_buffer.ptr + npart_local * cx));
 
@@ -160,8 +162,9 @@ private:
     // hid_t dset = H5Dcreate1(group_step, name.c_str(), memtypeid(dat),
     // filespace,
     //                         H5P_DEFAULT);
-    hid_t dset = H5Dcreate2(group_step, name.c_str(), memtypeid(dat), filespace,
-                            H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t dset;
+    H5CHK(dset = H5Dcreate2(group_step, name.c_str(), memtypeid(dat), filespace,
+                            H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
     // write the 2D array
     H5CHK(H5Dwrite(dset, memtypeid(dat), memspace, filespace, dxpl,
                    dh_buffer->h_buffer.ptr));
@@ -240,8 +243,9 @@ private:
     // Create the group for this time step.
     std::string step_name = "Step#";
     step_name += std::to_string(this->step);
-    hid_t group_step = H5Gcreate(file_id, step_name.c_str(), H5P_DEFAULT,
-                                 H5P_DEFAULT, H5P_DEFAULT);
+    hid_t group_step;
+    H5CHK(group_step = H5Gcreate(file_id, step_name.c_str(), H5P_DEFAULT,
+                                 H5P_DEFAULT, H5P_DEFAULT));
 
     // Perform the bookkeeping logic once for all ParticleDats
     const std::int64_t npart_local = group->get_npart_local();
@@ -341,8 +345,8 @@ public:
     this->plist_id = H5Pcreate(H5P_FILE_ACCESS);
     H5CHK(H5Pset_fapl_mpio(this->plist_id, this->comm_pair.comm_parent,
                            MPI_INFO_NULL));
-    this->file_id = H5Fcreate(this->filename.c_str(), H5F_ACC_TRUNC,
-                              H5P_DEFAULT, this->plist_id);
+    H5CHK(this->file_id = H5Fcreate(this->filename.c_str(), H5F_ACC_TRUNC,
+                                    H5P_DEFAULT, this->plist_id));
     this->is_closed = false;
     this->step = 0;
   }
diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 35a98ef..b2b5755 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -131,7 +131,8 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
     auto lambda_read_data = [&](const std::string name, const auto sym,
                                 auto *h_ptr) {
-      hid_t dset = H5Dopen(group_step, name.c_str(), H5P_DEFAULT);
+      hid_t dset;
+      H5CHK(dset = H5Dopen(group_step, name.c_str(), H5P_DEFAULT));
       H5CHK(H5Dread(dset, memtypeid(sym), memspace, filespace, dxpl, h_ptr));
       H5CHK(H5Dclose(dset));
     };
-- 
2.43.0


From 8e5f514242ad658ae2013c37987bd65a888fa101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:34 +0000
Subject: [PATCH 12/31] fix: initialise the counter of the atomic block RNG on
 creation

The two device ints which hold the sample count and the exhausted flag were
left uninitialised until the first loop that draws samples. A loop with zero
components read whatever the allocation held and could report an invalid
state.
---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 ++-
 include/neso_particles/containers/rng/host_rng_common.hpp      | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..635ea69 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -74,7 +74,8 @@ protected:
   inline void create_counter(SYCLTargetSharedPtr sycl_target) {
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
-          std::make_shared<BufferDevice<int>>(sycl_target, 2);
+          std::make_shared<BufferDevice<int>>(sycl_target,
+                                              std::vector<int>{0, 0});
     }
   }
 
diff --git a/include/neso_particles/containers/rng/host_rng_common.hpp b/include/neso_particles/containers/rng/host_rng_common.hpp
index 91b5669..aca1baf 100644
--- a/include/neso_particles/containers/rng/host_rng_common.hpp
+++ b/include/neso_particles/containers/rng/host_rng_common.hpp
@@ -195,6 +195,9 @@ protected:
                      const std::size_t required_size,
                      bool *reallocated = nullptr) {
     if (required_size == 0) {
+      if (reallocated != nullptr) {
+        *reallocated = false;
+      }
       return nullptr;
     }
 
-- 
2.43.0


From a79db033d97ed1f01812c61e54e7bedbf86dc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:34 +0000
Subject: [PATCH 13/31] fix: read product cells at the component offset of the
 cell id property

ParticleGroup::add_particles_local indexed the integer product data with the
index of the cell id property rather than the offset of its first component,
which gave wrong cells if a multi component INT property came first.
---
 src/particle_group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..f9cf11c 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,9 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    const int cell_id_offset =
+        product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
+    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_offset;
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From cf4c2894182ee5e6f8e3aef2de72fbc2c243ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:37 +0000
Subject: [PATCH 14/31] fix: property vectors kept pointers to removed particle
 properties

The pointers cached for a vector of Syms were kept when a ParticleDat or an
EphemeralDat was removed. Adding another with the same Sym left the loop
accessing freed device memory.
---
 .../containers/sym_vector_pointer_cache.hpp   | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..b400c81 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,12 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  /// Host copies of the pointers held in the cache. These are used to detect
+  /// that a Sym refers to a different ParticleDat than when the entry was made.
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetT<T>>>
+      map_syms_host_ptrs;
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetConstT<T>>>
+      map_syms_const_host_ptrs;
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -158,19 +164,22 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetT<T>> ptrs(n);
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // The ParticleDat a Sym refers to changes if a ParticleDat is removed and
+    // another is added with the same Sym.
+    if ((!this->in_cache(syms)) || (this->map_syms_host_ptrs[syms] != ptrs)) {
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +192,21 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
-
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    if ((!this->in_const_cache(syms)) ||
+        (this->map_syms_const_host_ptrs[syms] != ptrs)) {
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_const_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From 37a158a3a9c02b53d0b4ceafbfbc54556b7c379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:23 +0000
Subject: [PATCH 15/31] fix: surface function evaluation passed a host pointer
 to the unpacking kernel

---
 include/neso_particles/boundary/boundary_mesh_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/boundary/boundary_mesh_interface.hpp b/include/neso_particles/boundary/boundary_mesh_interface.hpp
index 62e8ee4..30d4dc0 100644
--- a/include/neso_particles/boundary/boundary_mesh_interface.hpp
+++ b/include/neso_particles/boundary/boundary_mesh_interface.hpp
@@ -589,7 +589,7 @@ public:
       }
     }
 
-    this->reverse_exchange_from_device_unpack(m_recvd_packed, ncomp, d_dst)
+    this->reverse_exchange_from_device_unpack(d_recv_packed->ptr, ncomp, d_dst)
         .wait_and_throw();
 
     restore_resource(sycl_target->resource_stack_map,
-- 
2.43.0


From cdf02257c26967a8a15d37b55932ae93700314c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 16/31] fix: initialise the staging buffer of a surface
 projection for geometry found later

---
 .../cartesian_trajectory_intersection.hpp     |  5 +++
 .../cartesian_trajectory_intersection.cpp     | 40 ++++++++++++-------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp b/include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp
index fc31985..bc7487f 100644
--- a/include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp
+++ b/include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp
@@ -55,6 +55,11 @@ public:
 
   void setup();
 
+  /// Grow the staging buffer of a function to hold the passed number of geometry
+  /// objects. New entries are initialised to zero.
+  void extend_dofs_stage(CartesianHMeshFunctionSharedPtr func,
+                         const INT num_geoms);
+
   template <typename T>
   inline void pre_integration_inner(std::shared_ptr<T> particles) {
     NESOASSERT(get_particle_group(particles)->contains_dat(
diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..c30a9d5 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -163,8 +163,11 @@ void CartesianTrajectoryIntersection::function_project_initialise(
   func->d_dofs_stage->realloc_no_copy(tmp_buffer_size);
   REAL *k_buffer = func->d_dofs_stage->ptr;
 
-  if (tmp_buffer_size > 0) {
-    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, tmp_buffer_size)
+  // The whole buffer is initialised as the exchange pattern may be extended
+  // before the contributions are made.
+  if (func->d_dofs_stage->size > 0) {
+    this->sycl_target->queue
+        .fill(k_buffer, (REAL)0.0, func->d_dofs_stage->size)
         .wait_and_throw();
   }
   func->fill(0.0);
@@ -172,6 +175,23 @@ void CartesianTrajectoryIntersection::function_project_initialise(
   this->sycl_target->profile_map.end_region(r0);
 }
 
+void CartesianTrajectoryIntersection::extend_dofs_stage(
+    CartesianHMeshFunctionSharedPtr func, const INT num_geoms) {
+  const auto cell_dof_count = func->cell_dof_count;
+  const INT current_stage_size = func->d_dofs_stage->size / cell_dof_count;
+  if (current_stage_size < num_geoms) {
+
+    func->d_dofs_stage->realloc(num_geoms * cell_dof_count);
+    const auto diff = (num_geoms - current_stage_size) * cell_dof_count;
+    REAL *k_buffer =
+        func->d_dofs_stage->ptr + current_stage_size * cell_dof_count;
+    this->sycl_target->queue
+        .parallel_for(sycl::range<1>(diff),
+                      [=](auto idx) { k_buffer[idx] = 0.0; })
+        .wait_and_throw();
+  }
+}
+
 void CartesianTrajectoryIntersection::function_project_contribute(
     ParticleSubGroupSharedPtr particle_sub_group, Sym<REAL> sym,
     const int component, const bool is_ephemeral,
@@ -190,19 +210,7 @@ void CartesianTrajectoryIntersection::function_project_contribute(
   const INT k_num_accessible_geoms = num_accessible_geoms;
 
   const auto cell_dof_count = func->cell_dof_count;
-  const INT current_stage_size = func->d_dofs_stage->size / cell_dof_count;
-  if (current_stage_size < k_num_accessible_geoms) {
-
-    func->d_dofs_stage->realloc(k_num_accessible_geoms * cell_dof_count);
-    const auto diff =
-        (k_num_accessible_geoms - current_stage_size) * cell_dof_count;
-    REAL *k_buffer =
-        func->d_dofs_stage->ptr + current_stage_size * cell_dof_count;
-    this->sycl_target->queue
-        .parallel_for(sycl::range<1>(diff),
-                      [=](auto idx) { k_buffer[idx] = 0.0; })
-        .wait_and_throw();
-  }
+  this->extend_dofs_stage(func, k_num_accessible_geoms);
 
   NESOASSERT(
       func->d_dofs_stage->size >=
@@ -279,6 +287,8 @@ void CartesianTrajectoryIntersection::function_project_finalise(
 
   const int group = func->boundary_group;
   auto &boundary_mesh_interface = this->map_groups_boundary_interface.at(group);
+  this->extend_dofs_stage(
+      func, boundary_mesh_interface->get_num_intersection_geoms());
   boundary_mesh_interface->exchange_from_device(
       func->d_dofs_stage->ptr, func->cell_dof_count, func->d_dofs->ptr);
   func->reset_version();
-- 
2.43.0


From a9c3ce90ce52f555395ae9911dd3db33fc87ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 17/31] fix: shrinking a buffer with realloc copied past the
 end of the new allocation

---
 include/neso_particles/device_buffers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index 835334b..ec7e157 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -117,7 +117,7 @@ public:
       this->ptr = this->malloc_wrapper(size * sizeof(T));
       const auto old_size = this->size;
       this->size = size;
-      this->memcpy_wrapper(this->ptr, ptr_old, old_size);
+      this->memcpy_wrapper(this->ptr, ptr_old, std::min(old_size, size));
       this->free_wrapper(ptr_old);
     }
     return this->size;
-- 
2.43.0


From a234fc0843c739ef88e0a1611d28103b80875355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 18/31] fix: matrix_transpose left the output of a single row
 or column unwritten

---
 include/neso_particles/algorithms/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..8b77e14 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,7 +452,7 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows == 0) || (num_cols == 0)) {
     return sycl::event();
   }
   const std::size_t num_bytes_per_item = sizeof(T);
-- 
2.43.0


From ba37a6dd54947c3670610d6f058a0f80144fc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 19/31] fix: minimum row count of a new CellDat was -1

---
 include/neso_particles/containers/cell_dat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 9767113..02050b6 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -379,8 +379,8 @@ public:
    */
   inline CellDat(SYCLTargetSharedPtr sycl_target, const int ncells,
                  const int ncol)
-      : nrow_max(0), sycl_target(sycl_target), ncells(ncells), ncol(ncol),
-        fixed_size(false) {
+      : nrow_max(0), nrow_min(0), sycl_target(sycl_target), ncells(ncells),
+        ncol(ncol), fixed_size(false) {
     this->create(ncells, ncol);
   };
 
-- 
2.43.0


From 5c9c7a4e035c0dfcdbb26d613b53d3f25cb92e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 20/31] fix: create the counter of the atomic block RNG before
 the loop is submitted

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index 635ea69..fba408c 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -137,9 +137,12 @@ public:
                "overlapping execution.");
     this->internal_state = 1;
 
+    auto sycl_target = global_info->particle_group->sycl_target;
+    // This cannot be done in impl_get_const as that is called inside a submit.
+    this->create_counter(sycl_target);
+
     if (this->num_components > 0) {
       const auto num_particles = get_loop_iteration_set_size(global_info);
-      auto sycl_target = global_info->particle_group->sycl_target;
       auto t0 = profile_timestamp();
 
       // Create num_particles * num_components random numbers from the RNG
-- 
2.43.0


From 5b23b274cba204b1b94c2dfee36d9bb638e42bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 21/31] fix: DOFMapperDG::copy_from_external copied in the
 wrong direction

---
 src/external_interfaces/common/dof_mapper_dg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index 6b3d550..bec1aba 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -86,7 +86,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
       k_num_cells_local * k_num_dofs_per_cell * sizeof(REAL);
 
   if (num_bytes > 0) {
-    this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes)
+    this->sycl_target->queue.memcpy(k_dofs, h_external_dofs, num_bytes)
         .wait_and_throw();
 
     auto e1 = this->sycl_target->queue.submit([&](sycl::handler &cgh) {
-- 
2.43.0


From 66e6ec1da1a93b900cee4c875072016a5367bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 22/31] fix: QuadraturePointMapper::get sized the receive
 buffer for one component

---
 src/external_interfaces/common/quadrature_point_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 8cdb0e9..d8eef7f 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -326,7 +326,7 @@ void QuadraturePointMapper::get(const int ncomp, std::vector<REAL> &output) {
   // Need to exchange and populate the points where the evaluation point is
   // not owned by the rank which added the point.
   auto sizes = this->compute_num_bytes<REAL>(ncomp);
-  this->recv_buffer.resize(sizes.second);
+  this->recv_buffer.resize(static_cast<std::size_t>(sizes.second) * ncomp);
   e1.wait_and_throw();
   this->compute_offsets<REAL>(ncomp, send_buffer, recv_buffer);
 
-- 
2.43.0


From b3651accd6fb27bc83e73a3d72a7b0e7b627b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 23/31] fix: DOFMapperDG copies in flight shared device buffers

---
 .../external_interfaces/common/dof_mapper_dg.hpp            | 2 ++
 src/external_interfaces/common/dof_mapper_dg.cpp            | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/include/neso_particles/external_interfaces/common/dof_mapper_dg.hpp b/include/neso_particles/external_interfaces/common/dof_mapper_dg.hpp
index d7bc807..4f8340f 100644
--- a/include/neso_particles/external_interfaces/common/dof_mapper_dg.hpp
+++ b/include/neso_particles/external_interfaces/common/dof_mapper_dg.hpp
@@ -70,6 +70,8 @@ protected:
   std::unique_ptr<BufferDevice<int>> d_map_to_index;
   std::unique_ptr<BufferDevice<REAL>> d_dofs;
   bool device_valid;
+  /// Event of the last copy submitted, which uses the device buffers.
+  sycl::event event_copy;
 
 public:
   SYCLTargetSharedPtr sycl_target;
diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index bec1aba..f69cef5 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -43,6 +43,8 @@ DOFMapperDGDeviceMapper DOFMapperDG::get_device_mapper() {
 
 void DOFMapperDG::copy_to_external(CellDatConstSharedPtr<REAL> cell_dat_const,
                                    REAL *h_external_dofs, EventStack &es) {
+  // The device buffers may still be in use by the previous copy.
+  this->event_copy.wait_and_throw();
   const auto k_mapper = this->get_device_mapper();
   const int k_num_cells_local = this->num_cells_local;
   const int k_num_dofs_per_cell = this->num_dofs_per_cell;
@@ -66,12 +68,15 @@ void DOFMapperDG::copy_to_external(CellDatConstSharedPtr<REAL> cell_dat_const,
 
     auto e1 =
         this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes, e0);
+    this->event_copy = e1;
     es.push(e1);
   }
 }
 
 void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
                                      REAL *h_external_dofs, EventStack &es) {
+  // The device buffers may still be in use by the previous copy.
+  this->event_copy.wait_and_throw();
   const auto k_mapper = this->get_device_mapper();
   const int k_num_cells_local = this->num_cells_local;
   const int k_num_dofs_per_cell = this->num_dofs_per_cell;
@@ -99,6 +104,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
                          });
     });
 
+    this->event_copy = e1;
     es.push(e1);
   }
 }
-- 
2.43.0


From fed8674b3047e55e095ceb11ca27eb9c6a0b9ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 24/31] fix: reject positions below or far outside the mesh in
 the global owner lookup

---
 src/global_mapping.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/global_mapping.cpp b/src/global_mapping.cpp
index ee4189d..b29abbe 100644
--- a/src/global_mapping.cpp
+++ b/src/global_mapping.cpp
@@ -121,6 +121,18 @@ void MeshHierarchyGlobalMap::execute() {
                   k_position_dat[cellx][dimx][layerx] - k_origin[dimx];
               const REAL tol = 1.0e-10;
 
+              // A position which is not finite or is outside of the mesh by
+              // more than a cell does not have valid cell indices.
+              const bool in_range =
+                  (pos * k_inverse_cell_width_fine > -1.0) &&
+                  (pos * k_inverse_cell_width_coarse < k_dims[dimx] + 1.0);
+              if (!in_range) {
+                k_lookup_global_cells[(idx * k_ndim * 2) + dimx] = -2;
+                k_lookup_global_cells[(idx * k_ndim * 2) + dimx + k_ndim] = -2;
+                NESO_KERNEL_ASSERT(false, k_error_propagate);
+                continue;
+              }
+
               // coarse grid index
               INT cell_coarse = ((REAL)pos * k_inverse_cell_width_coarse);
               // bounds check the cell at the upper extent
-- 
2.43.0


From c6e17e3c45f7a76546a760674b007114059c3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 25/31] fix: DMPlex2DMapper modified the bounding box of the
 mesh helper

---
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index d5afb1f..529ea50 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -17,7 +17,9 @@ DMPlex2DMapper::DMPlex2DMapper(SYCLTargetSharedPtr sycl_target,
   const int num_total_cells = num_local_cells + num_halo_cells;
 
   // Create a bounding box for halo cells and local cells.
-  auto bounding_box = dmplex_interface->dmh->get_bounding_box();
+  // This is a copy as the helper retains the box for the local cells only.
+  auto bounding_box = std::make_shared<ExternalCommon::BoundingBox>();
+  bounding_box->expand(dmplex_interface->dmh->get_bounding_box());
   if (dmh_halo) {
     bounding_box->expand(dmh_halo->get_bounding_box());
   }
-- 
2.43.0


From 53c897544ef7cd39ed49d5186398549ff1e6ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 26/31] fix: claim mesh hierarchy cells which are only slightly
 covered

---
 src/external_interfaces/common/local_claim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/local_claim.cpp b/src/external_interfaces/common/local_claim.cpp
index a464a85..70ed3c4 100644
--- a/src/external_interfaces/common/local_claim.cpp
+++ b/src/external_interfaces/common/local_claim.cpp
@@ -139,7 +139,8 @@ void bounding_box_claim(int element_id, BoundingBoxSharedPtr bounding_box,
     const INT index_global = cell_volume.first;
     const double volume = cell_volume.second;
     const double ratio = volume * inverse_cell_volume;
-    const int weight = 1000000.0 * ratio;
+    // A cell with a small overlap must still be claimed.
+    const int weight = std::max(1.0, 1000000.0 * ratio);
 
     local_claim.claim(index_global, weight, ratio);
     mh_geom_map[index_global].push_back(element_id);
-- 
2.43.0


From 7a27b8cb7630055aa646fd7918470c902749fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 27/31] fix: release PETSc objects created by the unstructured
 mesh interface

---
 src/external_interfaces/petsc/dmplex_helper.cpp             | 6 +++++-
 src/external_interfaces/petsc/dmplex_interface.cpp          | 3 +++
 src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp   | 1 +
 .../petsc/particle_cell_mapping/dmplex_host_mapper.cpp      | 3 +++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index e0b9d7e..293ccd7 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -503,7 +503,10 @@ int DMPlexHelper::contains_point(std::vector<PetscScalar> &point) {
   PetscInt n_found;
   const PetscInt *found;
   PETSCCHK(PetscSFGetGraph(cell_sf, NULL, &n_found, &found, &cells));
-  return cells[0].index;
+  const int index = cells[0].index;
+  PETSCCHK(PetscSFDestroy(&cell_sf));
+  PETSCCHK(VecDestroy(&v));
+  return index;
 }
 
 bool DMPlexHelper::cell_contains_point(const PetscInt index,
@@ -800,6 +803,7 @@ get_map_from_global_cell_points_to_ranks(DM dm) {
   MPICHK(MPI_Allreduce(cell_owners_local.data(), cell_owners.data(),
                        global_cell_count, MPI_INT, MPI_MAX, comm));
   cell_owners_local.clear();
+  dmh.free();
 
   return {global_point_min, cell_owners};
 }
diff --git a/src/external_interfaces/petsc/dmplex_interface.cpp b/src/external_interfaces/petsc/dmplex_interface.cpp
index fc5f854..59ad036 100644
--- a/src/external_interfaces/petsc/dmplex_interface.cpp
+++ b/src/external_interfaces/petsc/dmplex_interface.cpp
@@ -181,6 +181,7 @@ void DMPlexInterface::create_halos(ExternalCommon::MHGeomMap &mh_element_map) {
     this->neighbour_ranks.insert(this->neighbour_ranks.end(),
                                  remote_ranks.begin(), remote_ranks.end());
   } else {
+    PETSCCHK(DMDestroy(&dm_halo));
     this->dmh_halo = nullptr;
   }
   mhc.free();
@@ -219,6 +220,8 @@ void DMPlexInterface::free() {
   }
   if (this->dmh_halo) {
     this->dmh_halo->free();
+    // The DMPlex holding the halo cells was created by this instance.
+    PETSCCHK(DMDestroy(&this->dmh_halo->dm));
   }
 }
 
diff --git a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
index f6b9875..1f828cc 100644
--- a/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
+++ b/src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp
@@ -289,6 +289,7 @@ DMPlexMeshCouplerDG0::DMPlexMeshCouplerDG0(
 
   lambda_global_to_local(this->cells_forward_B);
   lambda_global_to_local(this->cells_backward_B);
+  dmh_B.free();
 
   NESOASSERT(this->cells_forward_A.size() == this->weights_forward_A.size(),
              "Vector size missmatch forward.");
diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp
index a234323..b588387 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp
@@ -88,6 +88,8 @@ void DMPlexHostMapper::map(ParticleGroup &particle_group, const int map_cell) {
     }
   }
 
+  PETSCCHK(PetscSFDestroy(&cell_sf));
+
   if (this->dmplex_interface->dmh_halo) {
     DM &dm_halo = this->dmplex_interface->dmh_halo->dm;
     // Look in halo cells for particles not found in local cells
@@ -134,6 +136,7 @@ void DMPlexHostMapper::map(ParticleGroup &particle_group, const int map_cell) {
       this->dh_ranks->h_buffer.ptr[px] = (cell_found) ? remote_rank : -1;
     }
 
+    PETSCCHK(PetscSFDestroy(&cell_sf));
     PETSCCHK(VecDestroy(&v_halo));
   }
 
-- 
2.43.0


From d479735313ac5e208985d37cda1b579d7bbf50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:16 +0000
Subject: [PATCH 28/31] fix: axis aligned trajectories missed edges through
 rounding

---
 include/neso_particles/device_functions.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/device_functions.hpp b/include/neso_particles/device_functions.hpp
index 0d45396..6faf3d5 100644
--- a/include/neso_particles/device_functions.hpp
+++ b/include/neso_particles/device_functions.hpp
@@ -218,8 +218,13 @@ inline bool line_segment_intersection_2d(const REAL &xa, const REAL &ya,
     const REAL y_min = y_cond ? y0 : y1;
     const REAL y_max = y_cond ? y1 : y0;
 
-    const bool in_bounds_ab = (x_min - tol <= xi) && (xi <= x_max + tol) &&
-                              (y_min - tol <= yi) && (yi <= y_max + tol);
+    // Only the direction in which this segment extends furthest is tested. The
+    // intersection point is on the line through the segment up to rounding and
+    // this rounding would reject points on an axis aligned segment.
+    const bool in_bounds_ab =
+        (x_max - x_min >= y_max - y_min)
+            ? ((x_min - tol <= xi) && (xi <= x_max + tol))
+            : ((y_min - tol <= yi) && (yi <= y_max + tol));
 
     return in_bounds_01 && in_bounds_ab;
   } else {
-- 
2.43.0


From d6172cf2bdc62ce17c39b8b4ec7f3dfde98f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 29/31] fix: boundary interaction read past positions with more
 components than dimensions

---
 .../petsc/boundary_interaction/boundary_interaction_common.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
index 2e077c1..fc9697e 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
@@ -60,7 +60,7 @@ protected:
                                        INT *d_int) {
     if (intersect_object.boundary_elements_exist()) {
       auto particle_group = get_particle_group(particle_sub_group);
-      const auto k_ndim = particle_group->position_dat->ncomp;
+      const int k_ndim = this->mesh->get_ndim();
 
       auto mesh_hierarchy_device_mapper =
           this->mesh_hierarchy_mapper->get_device_mapper();
-- 
2.43.0


From 49494ee0eb68f8f6dac2ceeb1d76c0e634457bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:43 +0000
Subject: [PATCH 30/31] fix: pair loop over cellwise pair lists aborted with
 profiling enabled

ParticlePairLoopArgs::wait ends the profile region of the loop but
ParticlePairLoopCellwisePairList::submit never started one, hence with
profiling enabled wait threw std::bad_optional_access.
---
 .../pair_loop/particle_pair_loop_cellwise_pair_list.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
index 4898dd2..bf5ad43 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp
@@ -104,6 +104,9 @@ public:
          [[maybe_unused]] const std::optional<int> cell_end =
              std::nullopt) override {
 
+    this->profile_region = this->sycl_target->profile_map.start_region(
+        "ParticlePairLoopCellwisePairList", this->name);
+
     int max_pair_count = 0;
     INT pair_list_counts_es = 0;
     int max_wave_count = 0;
-- 
2.43.0


From e2a6c668baaca80f2414c30d908b8abb303d880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:54 +0000
Subject: [PATCH 31/31] fix: halo validation of an unstructured mesh used the
 world communicator

DMPlexInterface::validate_halos reduced over MPI_COMM_WORLD, hence it never
returned for a mesh on a communicator that contains only some of the ranks.
---
 src/external_interfaces/petsc/dmplex_interface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_interface.cpp b/src/external_interfaces/petsc/dmplex_interface.cpp
index 59ad036..f622583 100644
--- a/src/external_interfaces/petsc/dmplex_interface.cpp
+++ b/src/external_interfaces/petsc/dmplex_interface.cpp
@@ -300,7 +300,7 @@ bool DMPlexInterface::validate_halos(const bool fatal) {
   }
   int num_points;
   MPICHK(MPI_Allreduce(&max_global_point, &num_points, 1, MPI_INT, MPI_MAX,
-                       MPI_COMM_WORLD));
+                       this->comm));
   num_points++;
 
   const int num_components = 1 + 1 + 4 + 1;
@@ -367,9 +367,9 @@ bool DMPlexInterface::validate_halos(const bool fatal) {
   }
 
   MPICHK(MPI_Allreduce(int_data.data(), int_rdata.data(), int_rdata.size(),
-                       MPI_INT, MPI_MAX, MPI_COMM_WORLD));
+                       MPI_INT, MPI_MAX, this->comm));
   MPICHK(MPI_Allreduce(real_data.data(), real_rdata.data(), real_rdata.size(),
-                       MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD));
+                       MPI_DOUBLE, MPI_MAX, this->comm));
 
   if (this->dmh_halo) {
     // create map from halo points to original global points
-- 
2.43.0

