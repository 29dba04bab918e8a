From 52c2f9a4579217d5871ae342aaec83135787817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 01/54] fix: exchange tree branches completely when the process
 count is not a power of two

---
 include/tree_topology/tree_topology.h | 31 +++++++++++++--------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..ed900f2 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,9 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Bounds of the data held by the ghost rank, nothing at first
+    key_t ghosts_lobound = key_t::max();
+    key_t ghosts_hibound = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,20 +1645,14 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
         if(partner == rank) {
-          // Add into each buffer, no communication needed
-          ghosts_entities.clear();
-          ghosts_nodes.clear();
-          find_nodes_(ghosts_nodes, ghosts_entities);
-          r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-            ghosts_entities.begin(), ghosts_entities.end());
-          r_ghosts_nodes_n2.insert(
-            r_ghosts_nodes_n2.end(), ghosts_nodes.begin(), ghosts_nodes.end());
+          // Last step: take over the data of the ghost rank, no
+          // communication needed
+          lobound_ = std::min(ghosts_lobound, lobound_);
+          hibound_ = std::max(ghosts_hibound, hibound_);
           for(size_t j = 0; j < r_ghosts_entities_n2.size(); ++j) {
             if(r_ghosts_entities_n2[j].owner != rank) {
               shared_entities_.push_back(r_ghosts_entities_n2[j].entity);
@@ -1691,14 +1688,16 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          key_t & cur_lobound = ghosts_rank == rank ? lobound_ : ghosts_lobound;
+          key_t & cur_hibound = ghosts_rank == rank ? hibound_ : ghosts_hibound;
+          s_keys.second[0] = cur_lobound;
+          s_keys.second[1] = cur_hibound;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
+          cur_lobound = std::min(s_rkeys.second[0], cur_lobound);
+          cur_hibound = std::max(s_rkeys.second[1], cur_hibound);
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1729,9 +1728,9 @@ private:
           }
           else {
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From cfcc5db4f6fedfe64f18203da89a045b65858f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 02/54] fix: Morton keys built at less than the maximum depth
 have that depth

---
 include/tree_topology/filling_curve.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..0d9efe6 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -503,8 +503,9 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
     assert(depth <= max_depth_);
+    // The sentinel bit of a key of this depth
+    value_ = int_t(1) << depth * dimension;
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
     for(size_t i = 0; i < dimension; ++i) {
-- 
2.43.0


From e3efdd181f24fcf143d590dee7963a93c2c97618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 03/54] fix: one-dimensional Hilbert keys use every bit of the
 coordinate

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 0d9efe6..5b091c8 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -279,7 +279,7 @@ public:
     // Handle 1D case
     if(dimension == 1) {
       assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
-- 
2.43.0


From 182d0d67b3aaa39dc3ed3679281eecfd4bf1ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 04/54] fix: conflict_depth starts from the maximum depth

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 5b091c8..0555af1 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From 92c0e2f07bec5ea3bd26ab3f1a5143feadf04d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 05/54] fix: three-dimensional Hilbert keys apply the rotations
 that make the curve continuous

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 0555af1..39040e5 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
-- 
2.43.0


From e548e39d5b2c75717c95c5e509d49525c98c726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 06/54] fix: three-dimensional Hilbert keys convert back to the
 coordinates they came from

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 39040e5..14d1b88 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -313,7 +313,7 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
+        bits[1] = (((key & 2) >> 1) ^ bits[0]) > 0;
         bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
         rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
-- 
2.43.0


From 3905511348fecbbb525e9f9655811b7e3ac55cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 07/54] fix: a new hash table is empty

---
 include/tree_topology/hashtable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tree_topology/hashtable.h b/include/tree_topology/hashtable.h
index 98e1334..ed4e157 100644
--- a/include/tree_topology/hashtable.h
+++ b/include/tree_topology/hashtable.h
@@ -36,6 +36,7 @@ public:
   //! @brief Creation of the hashtable: no collisions
   hashtable() {
     collision_ = 0;
+    nelement_ = 0;
     ht_.resize(hash_size_);
   }
 
-- 
2.43.0


From c45c58f38e9a0819025f68046b419faec9dca4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 08/54] fix: adding a tensor to itself or subtracting it
 changes it

---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From e3a04f4ff982436f81c9fdfa03fb7d5d74516202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 09/54] fix: the initial time is a real parameter

---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index f78b33c..e67323d 100644
--- a/include/params.h
+++ b/include/params.h
@@ -166,7 +166,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0


From 388081b944b5a3974ab3b5dad0f6f159508ce694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 10/54] fix: a string parameter too long for its buffer is an
 error

---
 include/params.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/params.h b/include/params.h
index e67323d..0d5f624 100644
--- a/include/params.h
+++ b/include/params.h
@@ -111,6 +111,11 @@
 
 #define READ_STRING_PARAM(PNAME)                                               \
   if(param_name == QUOTE(PNAME)) {                                             \
+    if(str_value.length() >= STRING_MAXLEN) {                                  \
+      log_one(error) << "ERROR: value of parameter " << param_name             \
+                     << " is too long" << endl;                                \
+      exit(2);                                                                 \
+    }                                                                          \
     strcpy(_##PNAME, str_value.c_str());                                       \
     unknown_param = false;                                                     \
   }
-- 
2.43.0


From 8eb1071acf10816c2ef92e777461e4a798e2b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 11/54] fix: a parameter with only a comment for value is
 malformed

---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index 0d5f624..979708b 100644
--- a/include/params.h
+++ b/include/params.h
@@ -1443,7 +1443,7 @@ read_params(const char * parfile) {
     // strip whitespace
     lhs = trim(lhs);
     rhs = trim(rhs);
-    if(lhs.length() == 0 or rhs.length() == 0) {
+    if(lhs.length() == 0 or rhs.length() == 0 or rhs[0] == '#') {
       cerr << "ERROR in parameter file " << parfile << ", line #" << ln
            << ": wrong format" << endl;
       exit(1);
-- 
2.43.0


From 61b9391ab817dbf60fa3dd9da2155bfab1e1354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 12/54] fix: wvt_set_boundary can be set in the parameter file

---
 include/params.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/params.h b/include/params.h
index 979708b..888605f 100644
--- a/include/params.h
+++ b/include/params.h
@@ -1074,6 +1074,10 @@ set_param(const std::string & param_name, const std::string & param_value) {
   READ_NUMERIC_PARAM(wvt_cool_down)
 #endif
 
+#ifndef wvt_set_boundary
+  READ_BOOLEAN_PARAM(wvt_set_boundary)
+#endif
+
 #ifndef wvt_radius
   READ_NUMERIC_PARAM(wvt_radius)
 #endif
-- 
2.43.0


From 94d1fd0b87c43325f96c266b03ea660821b5a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 13/54] fix: fmm_max_cell_mass can be set in the parameter file

---
 include/params.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/params.h b/include/params.h
index 888605f..62800f6 100644
--- a/include/params.h
+++ b/include/params.h
@@ -1202,6 +1202,10 @@ set_param(const std::string & param_name, const std::string & param_value) {
   READ_NUMERIC_PARAM(fmm_macangle)
 #endif
 
+#ifndef fmm_max_cell_mass
+  READ_NUMERIC_PARAM(fmm_max_cell_mass)
+#endif
+
   // relaxation parameters  --------------------------------------------------
 #ifndef relaxation_steps
   READ_NUMERIC_PARAM(relaxation_steps)
-- 
2.43.0


From 6cbd3b22f01916505f270f2d115fb7af16e04ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 14/54] fix: processes without elements can take part in the
 distributed sort

---
 mpisph/psort.h | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..6010626 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -45,13 +45,6 @@ public:
     int size, rank;
     MPI_Comm_size(MPI_COMM_WORLD, &size);
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-    int n_real = size;
-    for(int i = 0; i < size; ++i)
-      if(dist[i] == 0) {
-        n_real = i;
-        break;
-      }
-
     std::copy(dist, dist + size, right_ends[size].begin());
 
     // union of [0, right_end[i+1]) on each processor produces dist[i] total
@@ -84,9 +77,9 @@ public:
       _ValueType * mymedians = new _ValueType[n_act];
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // a process without elements in this range has no median
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
@@ -96,17 +89,16 @@ public:
       std::vector<_ValueType> queries(n_act);
 
       for(int k = 0; k < n_act; ++k) {
-        std::vector<int> ms_perm_v(n_real);
-        int * ms_perm = &ms_perm_v.at(0);
-        for(int i = 0; i < n_real; ++i)
-          ms_perm[i] = i * n_act + k;
-        std::sort(ms_perm, ms_perm + n_real,
+        // only the medians of the processes that have elements in this range
+        std::vector<int> ms_perm;
+        for(int i = 0; i < size; ++i)
+          if(subdist[k][i] > 0)
+            ms_perm.push_back(i * n_act + k);
+        std::sort(ms_perm.begin(), ms_perm.end(),
           PermCompare<_ValueType, _Compare>(medians, comp));
         int mid = accumulate(subdist[k].begin(), subdist[k].end(), 0) / 2;
         int query_ind = -1;
-        for(int i = 0; i < n_real; ++i) {
-          if(subdist[k][ms_perm[i] / n_act] == 0)
-            continue;
+        for(size_t i = 0; i < ms_perm.size(); ++i) {
           mid -= subdist[k][ms_perm[i] / n_act];
           if(mid <= 0) {
             query_ind = ms_perm[i];
@@ -160,7 +152,7 @@ public:
 
         // iterate over targets we hit
         for(int * s = split_low; s != split_high; ++s) {
-          assert(*s > 0);
+          assert(*s >= 0);
           // a bit sloppy: if more than one target in range, excess won't zero
           // out
           int excess = *s - ind_global[k].first;
-- 
2.43.0


From 1696bbeb7f5adca3642005ac8a9b2ad5a17d1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 15/54] fix: elements a process addresses to itself are
 delivered by mpi_alltoallv_p2p

---
 mpisph/utils.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 6efa050..0d86455 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -216,7 +216,12 @@ mpi_alltoallv_p2p(std::vector<int> & sendcount,
     }
   }
   for(int i = 0; i < size; ++i) {
-    if(recvcount[i] != 0 && rank != i) {
+    if(rank == i) {
+      std::copy(sendbuffer[i].begin(),
+        sendbuffer[i].begin() + recvbuffer[i].size(), recvbuffer[i].begin());
+      continue;
+    }
+    if(recvcount[i] != 0) {
       MPI_Recv(&(recvbuffer[i][0]), recvcount[i], MPI_BYTE, i, MPI_ANY_TAG,
         MPI_COMM_WORLD, &status[i]);
     }
-- 
2.43.0


From b093126acede99fba5bce549df118002cefd156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 16/54] fix: reductions of unsigned values are unsigned

---
 mpisph/utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 0d86455..c262841 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -245,7 +245,7 @@ reduce_min(float & value) {
 
 void
 reduce_min(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MIN, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 }
 
 void
@@ -267,7 +267,7 @@ reduce_sum(float & value) {
 
 void
 reduce_sum(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_SUM, MPI_COMM_WORLD);
 }
 
 void
@@ -295,7 +295,7 @@ reduce_max(float & value) {
 
 void
 reduce_max(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MAX, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MAX, MPI_COMM_WORLD);
 }
 
 void
-- 
2.43.0


From 5947aa43ef27c159ddb1099af00f53e56ab9887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 17/54] fix: the three-dimensional quintic spline kernel is
 normalised

---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..ef5aca0 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 9. / (40. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From a659cf37ff407b37542ae886ad99634229ca7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 18/54] fix: the gaussian kernel vanishes at the support radius

---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index ef5aca0..6035c8f 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -170,7 +170,7 @@ kernel<param::gaussian, gdimension>(const double & r, const double & h) {
   double rh = 3. * r / h;
 
   double result = 0.;
-  if(rh <= 3.) {
+  if(rh < 3.) {
     double sigma = gaussian_sigma[gdimension - 1] / pow(h, gdimension);
     result = sigma * exp(-rh * rh);
   }
-- 
2.43.0


From f9cf40df84f982e55de03c6a31e07e6b2e62f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 19/54] fix: the piecewise polytrope uses its density threshold
 in restarted runs

---
 include/physics/eos/eos.h | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/physics/eos/eos.h b/include/physics/eos/eos.h
index 56c5510..8f7a17b 100644
--- a/include/physics/eos/eos.h
+++ b/include/physics/eos/eos.h
@@ -316,8 +316,6 @@ public:
 
 template<>
 class eos_t<param::eos_ppt>{
-  static double rho_thr;    // density threshold
-
 public:
   /**
   * @brief      Compute adiabatic invariant from density and pressure
@@ -330,16 +328,15 @@ public:
   */
   static void
   compute_adiabatic(body & particle){
-    eos_t<param::eos_ppt>::rho_thr = param::ppt_density_thr;
     const double rho = particle.getDensity(),
                  P   = particle.getPressure();
     double K1 = 0.0;
-    if (rho < rho_thr) {
+    if (rho < ppt_density_thr) {
       K1 = P/pow(rho, poly_gamma);
     }
     else {
       double K2 = P/pow(rho, poly_gamma2);
-      K1 = K2*pow(rho_thr, poly_gamma2 - poly_gamma);
+      K1 = K2*pow(ppt_density_thr, poly_gamma2 - poly_gamma);
     }
     particle.setAdiabatic(K1);
   }
@@ -362,11 +359,11 @@ public:
     const double rho = particle.getDensity(),
                  K1  = particle.getAdiabatic();
     double P = 0.0;
-    if (rho < rho_thr) {
+    if (rho < ppt_density_thr) {
       P = K1*pow(rho, poly_gamma);
     }
     else {
-      double K2 = K1*pow(rho_thr, poly_gamma - poly_gamma2);
+      double K2 = K1*pow(ppt_density_thr, poly_gamma - poly_gamma2);
       P = K2*pow(rho, poly_gamma2);
     }
     particle.setPressure(P);
@@ -381,13 +378,13 @@ public:
   compute_soundspeed(body & particle) {
     const double rho = particle.getDensity(),
                  K1  = particle.getAdiabatic(),
-                 gam = (rho < rho_thr ? poly_gamma : poly_gamma2);
+                 gam = (rho < ppt_density_thr ? poly_gamma : poly_gamma2);
     double soundspeed = 0.;
-    if (rho < rho_thr) {
+    if (rho < ppt_density_thr) {
       soundspeed = sqrt(K1*poly_gamma*pow(rho,poly_gamma - 1.));
     }
     else {
-      double K2 = K1*pow(rho_thr, poly_gamma - poly_gamma2);
+      double K2 = K1*pow(ppt_density_thr, poly_gamma - poly_gamma2);
       soundspeed = sqrt(K2*poly_gamma2*pow(rho,poly_gamma2 - 1.));
     }
     particle.setSoundspeed(soundspeed);
@@ -404,24 +401,20 @@ public:
     const double rho = particle.getDensity(),
                  K1  = particle.getAdiabatic();
     double eps = 0.;
-    if (rho < rho_thr) {
+    if (rho < ppt_density_thr) {
       eps = K1*pow(rho, poly_gamma - 1.)/(poly_gamma - 1.);
     }
     else {
-      double K2 = K1*pow(rho_thr, poly_gamma - poly_gamma2);
+      double K2 = K1*pow(ppt_density_thr, poly_gamma - poly_gamma2);
       eps = K2*pow(rho,     poly_gamma2 - 1.)/(poly_gamma2 - 1.)
-          - K2*pow(rho_thr, poly_gamma2 - 1.)/(poly_gamma2 - 1.)
-          + K1*pow(rho_thr, poly_gamma  - 1.)/(poly_gamma  - 1.);
+          - K2*pow(ppt_density_thr, poly_gamma2 - 1.)/(poly_gamma2 - 1.)
+          + K1*pow(ppt_density_thr, poly_gamma  - 1.)/(poly_gamma  - 1.);
     }
     particle.setInternalenergy(eps);
   }
 
 };
 
-// declare static member of a templated class
-template<>
-double eos_t<param::eos_ppt>::rho_thr;
-
 template<>
 class eos_t<param::eos_no_eos>{
 public:
-- 
2.43.0


From 49b249cfea904dae0757bc6f5b4c2c740e61528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 20/54] fix: the white dwarf sound speed is the slope of its
 pressure

---
 include/physics/eos/eos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/physics/eos/eos.h b/include/physics/eos/eos.h
index 8f7a17b..a3e2e8f 100644
--- a/include/physics/eos/eos.h
+++ b/include/physics/eos/eos.h
@@ -253,9 +253,8 @@ public:
   soundspeed_given_rhoYe(double rho, double Ye) {
     double x = cbrt(rho*Ye/B_wd_nm);
     double x2 = square(x);
-    double numer = (1. + x2)*(6.*x2 - 3.) + 3. + x2*(2.*x2 - 3.);
-    double denom = (1. + x2)*(6.*x2 + 1.) - 1. + x2*(2.*x2 + 1.);
-    return sqrt(numer/(3.*denom)) * C_LIGHT_CGS;
+    // dP/drho: the inertia is that of the matter, not of the electrons alone
+    return sqrt(8.*A_wd*Ye*x2/(3.*B_wd_nm*sqrt(x2 + 1.)));
   }
 
   static void
-- 
2.43.0


From 02fc963b4d07c58f9c6cb1c49035451a021de792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:27 +0000
Subject: [PATCH 21/54] fix: the velocity divergence is that of velocity
 differences

---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..c0339fc 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -288,7 +288,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v += m_b*dot(nb->getVelocity() - v_a, DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From ba2aa104a3a9770f35410a23d01b26b84a132a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:27 +0000
Subject: [PATCH 22/54] fix: the viscosity coefficient of cold gas at rest is a
 number

---
 include/physics/viscosity.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index db48163..e24f651 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -348,8 +348,10 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
 
   double div_v = particle.getDivergenceV();
   double Atrig = A_trigger(particle, nbs, div_v);
-  double alpha_loc = sph_viscosity_alpha_max 
-                   * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
+  double alpha_loc = 0.0;
+  if (Atrig > 0.0)
+    alpha_loc = sph_viscosity_alpha_max
+              * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
 
   if (alpha_a <= alpha_loc) {
     particle.setAlpha(alpha_loc);
-- 
2.43.0


From 59ca7de64cd4ec19cc0df66555008becbcf53960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 23/54] fix: walls:xyz selection read a string that no longer
 existed

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..8cd4ca8 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -397,8 +397,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0


From 47f188eb8e251686e2cefd8eb500bc58c6ffe89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 24/54] fix: the orbit force read and wrote a third component
 in 2D

---
 include/physics/eforce.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index 8cd4ca8..fd6eba9 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -289,13 +289,15 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  double temp = SQ(rp[0] - a_sp);
+  for(unsigned short i = 1; i < gdimension; ++i)
+    temp += SQ(rp[i]);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
-  acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  for(unsigned short i = 1; i < gdimension; ++i)
+    acc[i] += term1 * rp[i];
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,7 +313,10 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
+  double term1 = SQ(rp[0] - a_sp);
+  for(unsigned short i = 1; i < gdimension; ++i)
+    term1 += SQ(rp[i]);
+  term1 = sqrt(term1);
   term1 = -grav * m_ns / term1;
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
-- 
2.43.0


From 3637782e34027981f7b97bbdc3829ea037dd9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 25/54] fix: density profile tables were read in single
 precision

---
 include/physics/density_profiles.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..4cb39b5 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -267,11 +267,11 @@ read_input_density_file(const char * ifname) {
        line.find_first_not_of(' ') == string::npos)
       continue;
     rad_grid[ln] = std::stod(line, &sz1);
-    rho_grid[ln] = std::stof(line.substr(sz1), &sz2);
+    rho_grid[ln] = std::stod(line.substr(sz1), &sz2);
     sz1 += sz2;
-    mass_grid[ln] = std::stof(line.substr(sz1), &sz2);
+    mass_grid[ln] = std::stod(line.substr(sz1), &sz2);
     sz1 += sz2;
-    drhodr_grid[ln] = std::stof(line.substr(sz1));
+    drhodr_grid[ln] = std::stod(line.substr(sz1));
 
     ln++;
   }
-- 
2.43.0


From 93ca46ed7e7d3c4fd40d5bb8e94ccdd7561486e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 26/54] fix: a tabulated density profile was evaluated outside
 its table

---
 include/physics/density_profiles.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 4cb39b5..5640c61 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -253,6 +253,12 @@ read_input_density_file(const char * ifname) {
   cout << "Read density profile " << ifname << " with " << Nr << " data points."
        << endl;
 
+  if(Nr < 4) {
+    cerr << "ERROR: density profile '" << ifname
+         << "' has less than four data points" << endl;
+    exit(1);
+  }
+
   // allocate arrays
   rad_grid.resize(Nr);
   rho_grid.resize(Nr);
@@ -317,6 +323,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 or i2 > N - 2)
+    return 0.0; // outside of the table
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From 77404187de8fa42c7589738f2698c21f10ad8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 27/54] fix: every fourth layer of the FCC lattice lay directly
 on the one before

---
 include/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lattice.h b/include/lattice.h
index 97756b0..9e28894 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -275,7 +275,7 @@ generator_lattice_3d(const int lattice_type,
   }
   else if(lattice_type == 2) { // fcc lattice in 3D
     for(double z_p = zmin, zl = 0; z_p < zmax;
-        z_p += dz, zl = (zl + 1) * (zl < 3))
+        z_p += dz, zl = (zl + 1) * (zl < 2))
       for(double y_p = ymin - zl * dy / 3, yo = 0; y_p < ymax;
           y_p += dy, yo = 1 - yo)
         for(double x_p = xmin + (yo - zl) * dx / 2.; x_p < xmax; x_p += dx)
-- 
2.43.0


From 09098310dde1736daf27e3720863c9c264a4675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:38 +0000
Subject: [PATCH 28/54] fix: outputs by time were missed, repeated or reached
 with steps above the stability limit

---
 include/physics/analysis.h        |  14 ++--
 include/physics/default_physics.h | 106 ++++++++++++++++++------------
 2 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/include/physics/analysis.h b/include/physics/analysis.h
index bf44530..527fd06 100644
--- a/include/physics/analysis.h
+++ b/include/physics/analysis.h
@@ -230,20 +230,14 @@ set_initial_time_iteration() {
 
   if (out_screen_dt > 0.0) { // set next screen output time
     t_screen_output = out_screen_dt*((int64_t)(totaltime/out_screen_dt));
-    if (t_screen_output < totaltime)
-      t_screen_output = totaltime;
   }
 
   if (out_scalar_dt > 0.0) { // set next scalar output time
     t_scalar_output = out_scalar_dt*((int64_t)(totaltime/out_scalar_dt));
-    if (t_scalar_output < totaltime)
-      t_scalar_output = totaltime;
   }
 
   if (out_h5data_dt > 0.0) { // set next h5data output time
     t_h5data_output = out_h5data_dt*((int64_t)(totaltime/out_h5data_dt));
-    if (t_h5data_output < totaltime)
-      t_h5data_output = totaltime;
   }
 
 }
@@ -259,7 +253,8 @@ screen_output(int rank) {
   const int screen_length = 40;
 
   if (out_screen_dt > 0.0) { // output by time
-    if (physics::totaltime < physics::t_screen_output) {
+    if (not physics::output_is_due(physics::t_screen_output,
+                                   param::out_screen_dt)) {
       return;
     }
   }
@@ -298,7 +293,8 @@ void
 scalar_output(body_system<double, gdimension> & bs, const int rank) {
   static bool first_time = true;
   if (param::out_scalar_dt > 0.0) { // output by time
-    if (physics::totaltime < physics::t_scalar_output) {
+    if (not physics::output_is_due(physics::t_scalar_output,
+                                   param::out_scalar_dt)) {
       return;
     }
   }
@@ -414,7 +410,7 @@ h5data_output(body_system<double, gdimension> & bs, const int rank) {
   using namespace physics;
 
   if (out_h5data_dt > 0.0) { // output by time
-    if (totaltime < t_h5data_output) {
+    if (not output_is_due(t_h5data_output, out_h5data_dt)) {
       return;
     }
   }
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index c0339fc..823f265 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -753,6 +753,33 @@ add_short_range_repulsion(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a + acc_r);
 } // add_short_range_repulsion
 
+/**
+ * @brief      Whether an output by time is due, up to rounding of the time
+ *
+ * @param      t_output   Output time, a multiple of the interval
+ * @param      interval   Time between outputs
+ */
+bool
+output_is_due(const double t_output, const double interval) {
+  return t_output <= totaltime + 1e-10 * interval;
+}
+
+/**
+ * @brief      First output time after the current time
+ *
+ * @param      t_output   Output time, a multiple of the interval
+ * @param      interval   Time between outputs
+ */
+double
+next_output_time(double t_output, const double interval) {
+  if(output_is_due(t_output, interval))
+    t_output += interval * std::floor((totaltime - t_output) / interval);
+  for(int i = 0; i < 2; ++i)
+    if(output_is_due(t_output, interval))
+      t_output += interval;
+  return t_output;
+}
+
 /**
  * @brief      Reduce adaptive timestep and set its value
  *
@@ -768,58 +795,44 @@ set_adaptive_timestep(std::vector<body> & bodies) {
 
   mpi_utils::reduce_min(dtmin);
 
+  // the previous step may have been shortened to match an output: undo this
+  if(dt_saved > 0.0)
+    dt = dt_saved;
+
   if(dtmin < dt)
     dt = std::min(dtmin, dt / 2.0);
 
   if(dtmin > 2.0 * dt)
     dt = dt * 2.0;
 
-  double dt_orig = dt;
-  totaltime_next = totaltime + dt;
-
-  if(out_screen_dt > 0) {
-    // if output to screen by time:
-    // match the next screen output time
-    if (totaltime == t_screen_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_screen_output += out_screen_dt;
-    }
-    if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
-      dt_saved = dt;
-      totaltime_next = t_screen_output;
-    }
+  // the nearest of the output times; those that only differ from it by
+  // rounding are matched together
+  const double intervals[3] = {out_screen_dt, out_scalar_dt, out_h5data_dt};
+  const double outputs[3] = {t_screen_output, t_scalar_output, t_h5data_output};
+  double t_output[3], t_nearest = 0.0;
+  bool by_time = false;
+  for(int i = 0; i < 3; ++i) {
+    if(not(intervals[i] > 0.0))
+      continue;
+    t_output[i] = next_output_time(outputs[i], intervals[i]);
+    t_nearest = by_time ? std::min(t_nearest, t_output[i]) : t_output[i];
+    by_time = true;
   }
 
-  if(out_scalar_dt > 0) {
-    // if output scalar by time:
-    // match the next scalar output time
-    if (totaltime == t_scalar_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_scalar_output += out_scalar_dt;
-    }
-    if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_scalar_output);
-    }
-  }
+  dt_saved = dt;
+  totaltime_next = totaltime + dt;
+  if(by_time) {
+    double t_match = t_nearest;
+    for(int i = 0; i < 3; ++i)
+      if(intervals[i] > 0.0 and t_output[i] - t_nearest < 1e-10 * intervals[i])
+        t_match = std::max(t_match, t_output[i]);
 
-  if(out_h5data_dt > 0) {
-    // if output h5data by time:
-    // match the next h5data output time
-    if (totaltime == t_h5data_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_h5data_output += out_h5data_dt;
-    }
-    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_h5data_output);
-    }
+    if(totaltime_next >= t_nearest) // match the output time
+      totaltime_next = t_match;
+    else if(totaltime_next + dt > t_nearest) // avoid a tiny step before it
+      totaltime_next = totaltime + 0.5 * (t_nearest - totaltime);
   }
   dt = totaltime_next - totaltime;
-
 }
 
 void
@@ -852,6 +865,14 @@ compute_smoothinglength(std::vector<body> & bodies) {
  */
 void
 advance_time() {
+  // outputs by time up to now have been made
+  if(out_screen_dt > 0.0)
+    t_screen_output = next_output_time(t_screen_output, out_screen_dt);
+  if(out_scalar_dt > 0.0)
+    t_scalar_output = next_output_time(t_scalar_output, out_scalar_dt);
+  if(out_h5data_dt > 0.0)
+    t_h5data_output = next_output_time(t_h5data_output, out_h5data_dt);
+
   iteration++;
   if (adaptive_timestep)
     totaltime = totaltime_next;
@@ -866,7 +887,8 @@ bool
 termination_criteria() {
     if (final_iteration > 0 && iteration > final_iteration)
        return true;
-    if (final_time > 0.0 && totaltime > final_time)
+    // the sum of the steps up to final_time can exceed it by rounding
+    if (final_time > 0.0 && totaltime > final_time * (1.0 + 1e-12))
        return true;
     return false;
 }
-- 
2.43.0


From f94b0bc683c169c9d4cfe8d629bdf53170c868af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:56 +0000
Subject: [PATCH 29/54] fix: the viscosity coefficient used outdated fields of
 remote neighbours

---
 app/drivers/hydro/main_driver.cc     | 2 ++
 app/drivers/newtonian/main_driver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..5ebd9b3 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -120,6 +120,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // divergence and sound speed of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -194,6 +195,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // divergence and sound speed of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..d1ead0d 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -127,6 +127,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // divergence and sound speed of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -209,6 +210,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // divergence and sound speed of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
-- 
2.43.0


From a6e34009e5cc798b96807d72d421bda2534b2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:56 +0000
Subject: [PATCH 30/54] fix: the signal speed depended on the partition of the
 particles

---
 include/physics/default_physics.h | 8 +++++++-
 include/physics/viscosity.h       | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 823f265..15ec01b 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -258,6 +258,10 @@ compute_signalspeed(body & particle, std::vector<body *> & nbs) {
 
   double vsig = 0.0;
   for(int b = 0 ; b < n_nb; ++b){
+    // the search may also find particles which do not interact
+    if(distance(pos_a, nbs[b]->coordinates()) >
+       .5*(particle.radius() + nbs[b]->radius()))
+      continue;
     vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
   }
 
@@ -314,7 +318,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
@@ -405,6 +408,9 @@ compute_acceleration(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a);
   particle.setGAcceleration(0);
   particle.setGPotential(0);
+
+  // needs the current sound speed of the neighbors
+  compute_signalspeed(particle, nbs);
 } // compute_acceleration
 
 /**
diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index e24f651..5d03f6e 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -343,6 +343,9 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
   // compute signal velocity
   double vsig = 0.0;
   for(int b = 0 ; b < n_nb; ++b){
+    // the search may also find particles which do not interact
+    if(distance(pos_a, pos_[b]) > .5*(h_a + h_[b]))
+      continue;
     vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
   }
 
-- 
2.43.0


From 90f72af7f13fd06ca14743816dc879912391cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 31/54] fix: diagnostic extrema and means of the speed were
 those of one process, the most neighbours that of all reports

---
 include/diagnostic.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..61d5a7b 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -46,7 +46,8 @@ double V_min, V_max, V_average;
 void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
-  N_min = bodies[0].getNeighbors();
+  N_min = std::numeric_limits<uint64_t>::max();
+  N_max = 0;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
@@ -75,7 +76,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
   int64_t totalnbodies) {
   double h_total = 0.;
   h_min = std::numeric_limits<double>::max();
-  h_max = std::numeric_limits<double>::min();
+  h_max = 0.;
   for(auto & b : bodies) {
     double h = b.radius();
     h_total += h;
@@ -94,7 +95,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
 void
 compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
   V_min = std::numeric_limits<double>::max();
-  V_max = std::numeric_limits<double>::min();
+  V_max = 0.;
   V_average = 0.;
   double V_tot = 0.;
   for(auto & b : bodies) {
@@ -103,6 +104,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From 0a936ba3c4010bf2cbbea0bedc29c981177d8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 32/54] fix: the neighbor counts of snapshots and diagnostics
 were uninitialised memory

---
 include/physics/default_physics.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 15ec01b..ba9fbb8 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -212,6 +212,14 @@ compute_density(body & particle, std::vector<body *> & nbs) {
     double Wab = sph_kernel_function(r_a_[b], .5 * (h_a + h_[b]));
     rho_a += m_[b] * Wab;
   } // for
+
+  // number of interacting neighbors, including the particle itself
+  size_t n_int = 0;
+  for(int b = 0; b < n_nb; ++b)
+    if(r_a_[b] <= .5 * (h_a + h_[b]))
+      ++n_int;
+  particle.setNeighbors(n_int);
+
   if(not(rho_a > 0)) {
     std::cout << "Density of a particle is not a positive number: "
               << "rho = " << rho_a << std::endl;
-- 
2.43.0


From c05b5c5cede24f6dd4e63889761e8f53494bc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 33/54] fix: particles were reflected to the wrong side in 1D,
 NaN at the center, infinite smoothing length at zero density in the
 relaxation

---
 include/physics/wvt.h | 93 ++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 67 deletions(-)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index c5544ef..8eeb119 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -114,55 +114,18 @@ compute_density(body & particle, std::vector<body *> & nbs) {
 }
 
 /**
- * @brief:    Converts cartesian particle coordinates into
- *            spherical
+ * @brief:    Mirrors a position at the spherical boundary: same
+ *            direction from the center (or same side in 1D), as far
+ *            from the boundary on its other side. The center itself
+ *            has no direction and no mirror image.
  *
- * @param     pos_c   Particle position in cartesian coord.
+ * @param     pos       Particle position, not the center
+ * @param     boundary  Radius of the boundary
  */
 point_t
-cartesian_to_spherical(const point_t & pos_c) {
-  double r = magnitude(pos_c);
-  point_t pos_s = 0.0;
-
-  if(gdimension == 1) {
-    pos_s[0] = r;
-  }
-  else if(gdimension == 2) {
-    pos_s[0] = r;
-    pos_s[1] = atan2(pos_c[1], pos_c[0]);
-  }
-  else {
-    pos_s[0] = r;
-    pos_s[1] = atan2(pos_c[1], pos_c[0]);
-    pos_s[2] = acos(pos_c[2] / r);
-  }
-  return pos_s;
-}
-
-/**
- * @brief:    Converts spherical particle coordinates into
- *            cartesian
- *
- * @param     pos_s   Particle position in spherical coord.
- */
-point_t
-spherical_to_cartesian(const point_t & pos_s) {
-  double r = pos_s[0];
-  point_t pos_c = 0.0;
-
-  if(gdimension == 1) {
-    pos_c[0] = r;
-  }
-  else if(gdimension == 2) {
-    pos_c[0] = r * cos(pos_s[1]);
-    pos_c[1] = r * sin(pos_s[1]);
-  }
-  else {
-    pos_c[0] = r * sin(pos_s[2]) * cos(pos_s[1]);
-    pos_c[1] = r * sin(pos_s[2]) * sin(pos_s[1]);
-    pos_c[2] = r * cos(pos_s[2]);
-  }
-  return pos_c;
+mirror_position(const point_t & pos, const double boundary) {
+  const double r = magnitude(pos);
+  return ((2.0 * boundary - r) / r) * pos;
 }
 
 /**
@@ -176,6 +139,8 @@ spherical_to_cartesian(const point_t & pos_s) {
 point_t
 remove_radial_acc(const point_t & pos_c, const point_t & acc_c) {
   double r = magnitude(pos_c);
+  if(r == 0.0) // no radial direction in the center
+    return acc_c;
   point_t pos_n = (1.0 / r) * pos_c;
   point_t acc_n = acc_c - dot(pos_n, acc_c) * pos_n;
   return 2.0 * acc_n;
@@ -222,10 +187,9 @@ wvt_acceleration_arth(body & particle, std::vector<body *> & nbs) {
       if(boost::iequals(wvt_boundary, "reflective")) {
         // If particle sees the edge, interact with mirror particles
         if((r_a + h_a) > boundary) {
-          point_t pos_bs = cartesian_to_spherical(pos_b);
-          if(pos_bs[0] < boundary) {
-            pos_bs[0] = boundary + (boundary - pos_bs[0]);
-            pos_b = spherical_to_cartesian(pos_bs);
+          const double r_b = magnitude(pos_b);
+          if(r_b > 0.0 && r_b < boundary) {
+            pos_b = mirror_position(pos_b, boundary);
             r_ab = flecsi::distance(pos_a, pos_b);
             // W_ab  = sph_kernel_function(r_ab,h_ab)*pow(h_ab,gdimension);
             // if (r_ab > 0.0 && r_ab <= h_ab) {
@@ -242,10 +206,8 @@ wvt_acceleration_arth(body & particle, std::vector<body *> & nbs) {
 
     // If particle sees the edge, interact with own mirror image
     if(boost::iequals(wvt_boundary, "reflective")) {
-      if((r_a + h_a) > boundary) {
-        point_t pos_ms = cartesian_to_spherical(pos_a);
-        pos_ms[0] = boundary + (boundary - pos_ms[0]);
-        point_t pos_m = spherical_to_cartesian(pos_ms);
+      if(r_a > 0.0 && (r_a + h_a) > boundary) {
+        point_t pos_m = mirror_position(pos_a, boundary);
         double r_am = flecsi::distance(pos_a, pos_m);
         double W_am = sph_kernel_function(r_am, h_a) * pow(h_a, gdimension);
         // if (r_am > 0.0 && r_am <= h_a) {
@@ -308,10 +270,9 @@ wvt_acceleration_diehl(body & particle, std::vector<body *> & nbs) {
       if(boost::iequals(wvt_boundary, "reflective")) {
         // If particle sees the edge, interact with mirror particles
         if((r_a + h_a) > boundary) {
-          point_t pos_bs = cartesian_to_spherical(pos_b);
-          if(pos_bs[0] < boundary) {
-            pos_bs[0] = boundary + (boundary - pos_bs[0]);
-            pos_b = spherical_to_cartesian(pos_bs);
+          const double r_b = magnitude(pos_b);
+          if(r_b > 0.0 && r_b < boundary) {
+            pos_b = mirror_position(pos_b, boundary);
             r_ab = flecsi::distance(pos_a, pos_b);
             // W_ab  = SQ(h_ab/(r_ab+eps*h_ab))-SQ(h_ab/(h_ab+eps*h_ab));
             W_ab = SQ(h_a / (r_ab + eps * h_a)) - SQ(h_a / (h_a + eps * h_a));
@@ -326,11 +287,8 @@ wvt_acceleration_diehl(body & particle, std::vector<body *> & nbs) {
     } // Loop over neighbors
     if(boost::iequals(wvt_boundary, "reflective")) {
       // If particle sees the edge, interact with own mirror image
-      if((r_a + h_a) > boundary) {
-        point_t pos_ms = cartesian_to_spherical(pos_a);
-        pos_ms[0] = boundary + (boundary - pos_ms[0]);
-
-        point_t pos_m = spherical_to_cartesian(pos_ms);
+      if(r_a > 0.0 && (r_a + h_a) > boundary) {
+        point_t pos_m = mirror_position(pos_a, boundary);
         double r_am = flecsi::distance(pos_a, pos_m);
         double W_am =
           SQ(h_a / (r_am + eps * h_a)) - SQ(h_a / (h_a + eps * h_a));
@@ -540,9 +498,7 @@ wvt_displacement(body & source) {
   }
   // Reflect particles on the sphere edge
   if(r / boundary >= 1.0) {
-    point_t rs = cartesian_to_spherical(rp);
-    rs[0] = rs[0] - 2.0 * (rs[0] - boundary);
-    rp = spherical_to_cartesian(rs);
+    rp = mirror_position(rp, boundary);
     // source.setAcceleration(0.0);
   }
 
@@ -564,7 +520,7 @@ wvt_displacement(body & source) {
       h = pow(wvt_ngb * mass / (4.0 * M_PI * rho / 3.0), 1.0 / 3.0);
     }
   }
-  if(rho == 0.0) {
+  if(not(rho > 0.0)) {
     h = sphere_radius;
   }
   source.set_radius(h);
@@ -588,6 +544,9 @@ wvt_set_density(body & source) {
   double rho = (param::rho_initial) / rho0 *
                density_profiles::spherical_density_profile(r / sphere_radius);
   double h = sph_eta * kernels::kernel_width * pow(mass / rho, 1. / gdimension);
+  if(not(rho > 0.0)) { // same as in wvt_displacement
+    h = sphere_radius;
+  }
   source.set_radius(h);
   source.setDensity(rho);
 }
-- 
2.43.0


From deed9be20b2b8ecf16ff948b8e09bae50c0389ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 34/54] fix: periodic images: do not write past the coordinates
 in 1D and 2D, allow ranks that only held images

---
 include/physics/boundary.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..ab3f584 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -48,8 +48,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   auto start = std::stable_partition(lbodies.begin(), lbodies.end(),
     [](const auto & left) { return left.getType() != particle_type_t::WALL; });
 
-  assert(start != lbodies.begin());
-
 #ifdef DEBUG
   for(auto it = start; it != lbodies.end(); ++it)
     assert(it->getType() == particle_type_t::WALL);
@@ -133,11 +131,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension >= 2) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension >= 3) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
-- 
2.43.0


From 234b540f417393655fb88142dcb3f1e087facbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:01 +0000
Subject: [PATCH 35/54] fix: spread periodic images evenly over the ranks

---
 mpisph/bodies_system.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index a18089a..6d671ca 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -163,6 +163,7 @@ public:
       // Choose the smoothing length to be the biggest from everyone
       double smoothinglength = getSmoothinglength();
       boundary::pboundary_generate(tree_.entities(), 2.5 * smoothinglength);
+      balance_entities();
       localnbodies_ = tree_.entities().size();
       MPI_Allreduce(&localnbodies_, &totalnbodies_, 1, MPI_INT64_T, MPI_SUM,
         MPI_COMM_WORLD);
@@ -228,6 +229,38 @@ public:
     log_one(trace) << tree_ << std::endl;
   }
 
+  /**
+   * @brief      Spread the entities evenly over the ranks, keeping their order:
+   *             the periodic images are created unevenly.
+   */
+  void balance_entities() {
+    int rank, size;
+    MPI_Comm_size(MPI_COMM_WORLD, &size);
+    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+
+    std::vector<int64_t> nbodies(size);
+    nbodies[rank] = tree_.entities().size();
+    MPI_Allgather(MPI_IN_PLACE, 1, MPI_INT64_T, &nbodies[0], 1, MPI_INT64_T,
+      MPI_COMM_WORLD);
+    const int64_t total =
+      std::accumulate(nbodies.begin(), nbodies.end(), int64_t(0));
+    const int64_t first = std::accumulate(
+      nbodies.begin(), nbodies.begin() + rank, int64_t(0));
+    const int64_t last = first + nbodies[rank];
+
+    std::vector<int> sendcount(size);
+    int64_t begin = 0;
+    for(int i = 0; i < size; ++i) {
+      const int64_t end = begin + total / size + (i < total % size ? 1 : 0);
+      sendcount[i] = std::max(
+        int64_t(0), std::min(end, last) - std::max(begin, first));
+      begin = end;
+    }
+    std::vector<body> balanced;
+    mpi_utils::mpi_alltoallv_p2p(sendcount, tree_.entities(), balanced);
+    tree_.entities().swap(balanced);
+  }
+
   void mpi_compute_range(const std::vector<body> & bodies,
     std::array<point_t, 2> & range) {
     int rank, size;
-- 
2.43.0


From a6a907b6823a517be1112e8a821240e344658d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 36/54] fix: periodic images deep enough for dependent passes
 and on both sides of narrow boxes

---
 include/physics/boundary.h | 100 +++++++------------------------------
 mpisph/bodies_system.h     |  11 +++-
 2 files changed, 29 insertions(+), 82 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index ab3f584..a12f02b 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -67,54 +67,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   //}
 }
 
-void
-add_corner_XX(const std::array<bool, gdimension> & on_edge,
-  const std::array<size_t, 2> & d,
-  const std::array<point_t, 2> & box,
-  const double & halo_size,
-  const body & lbody,
-  std::vector<body> & edge) {
-  if(on_edge[d[0]] && on_edge[d[1]]) {
-    body nu = lbody;
-    nu.setType(particle_type_t::WALL);
-    point_t coord = nu.coordinates();
-    for(size_t i = 0; i < 2; ++i) {
-      if(nu.coordinates()[d[i]] + halo_size > box[1][d[i]]) {
-        coord[d[i]] = box[0][d[i]] - abs(nu.coordinates()[d[i]] + box[0][d[i]]);
-      }
-      else {
-        coord[d[i]] = box[1][d[i]] + abs(nu.coordinates()[d[i]] + box[1][d[i]]);
-      }
-    }
-    nu.set_coordinates(coord);
-    edge.push_back(nu);
-  }
-}
-
-void
-add_corner_XXX(const std::array<bool, gdimension> & on_edge,
-  const std::array<size_t, 3> & d,
-  const std::array<point_t, 2> & box,
-  const double & halo_size,
-  const body & lbody,
-  std::vector<body> & edge) {
-  if(on_edge[d[0]] && on_edge[d[1]] && on_edge[d[2]]) {
-    body nu = lbody;
-    nu.setType(particle_type_t::WALL);
-    point_t coord = nu.coordinates();
-    for(size_t i = 0; i < 3; ++i) {
-      if(nu.coordinates()[d[i]] + halo_size > box[1][d[i]]) {
-        coord[d[i]] = box[0][d[i]] - abs(nu.coordinates()[d[i]] + box[0][d[i]]);
-      }
-      else {
-        coord[d[i]] = box[1][d[i]] + abs(nu.coordinates()[d[i]] + box[1][d[i]]);
-      }
-    }
-    nu.set_coordinates(coord);
-    edge.push_back(nu);
-  }
-}
-
 void
 pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   int64_t original_nparticles = lbodies.size();
@@ -163,48 +115,34 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // Search for particles near the edge
   std::vector<body> edge;
   for(int i = 0; i < lbodies.size(); ++i) {
-    std::array<bool, gdimension> on_edge;
-    on_edge.fill(false);
+    // The particle and its images, dimension by dimension: the images of
+    // images fill the corners
+    std::vector<point_t> images(1, lbodies[i].coordinates());
 
     for(int d = 0; d < gdimension; ++d) {
       if(!periodic[d])
         continue;
 
-      if(lbodies[i].coordinates()[d] + halo_size > box[1][d] ||
-         lbodies[i].coordinates()[d] - halo_size <= box[0][d]) {
-        on_edge[d] = true;
-
-        // New on this axis
-        body nu = lbodies[i];
-        nu.setType(particle_type_t::WALL);
-        point_t coord = nu.coordinates();
-        if(nu.coordinates()[d] + halo_size > box[1][d]) {
-          // coord[d] = box[0][d] - fabs((nu.coordinates()[d]+box[0][d]));
-          coord[d] -= (box[1][d] - box[0][d]);
+      const double x = lbodies[i].coordinates()[d];
+      const size_t nimages = images.size();
+      for(size_t k = 0; k < nimages; ++k) {
+        point_t coord = images[k];
+        if(x + halo_size > box[1][d]) {
+          coord[d] = x - (box[1][d] - box[0][d]);
+          images.push_back(coord);
         }
-        else {
-          // coord[d] = box[1][d] + fabs((nu.coordinates()[d]+box[1][d]));
-          coord[d] += (box[1][d] - box[0][d]);
+        if(x - halo_size <= box[0][d]) {
+          coord[d] = x + (box[1][d] - box[0][d]);
+          images.push_back(coord);
         }
-        nu.set_coordinates(coord);
-        edge.push_back(nu);
       }
     }
-    // If several dimensions interfere, add in the corners
-    if(gdimension == 1)
-      continue;
-    if(gdimension == 2) {
-      // x and y
-      add_corner_XX(on_edge, {0, 1}, box, halo_size, lbodies[i], edge);
-    }
-    if(gdimension == 3) {
-      // Multiple combinations
-      // xy, xz, yz, xyz
-      add_corner_XX(on_edge, {0, 1}, box, halo_size, lbodies[i], edge);
-      add_corner_XX(on_edge, {0, 2}, box, halo_size, lbodies[i], edge);
-      add_corner_XX(on_edge, {2, 1}, box, halo_size, lbodies[i], edge);
-
-      add_corner_XXX(on_edge, {0, 1, 2}, box, halo_size, lbodies[i], edge);
+
+    for(size_t k = 1; k < images.size(); ++k) {
+      body nu = lbodies[i];
+      nu.setType(particle_type_t::WALL);
+      nu.set_coordinates(images[k]);
+      edge.push_back(nu);
     }
   }
   int rank, size;
diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index 6d671ca..e3211b3 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -162,7 +162,16 @@ public:
       boundary::pboundary_clean(tree_.entities());
       // Choose the smoothing length to be the biggest from everyone
       double smoothinglength = getSmoothinglength();
-      boundary::pboundary_generate(tree_.entities(), 2.5 * smoothinglength);
+      // The images must be deep enough for the neighbors of the neighbors: one
+      // smoothing length for the forces, one for the density and one more for
+      // the viscosity coefficient and each additional pressure update
+      double reach = 2;
+      if(param::sph_viscosity == param::visc_cullen)
+        reach += 1;
+      if(param::evolve_internal_energy && param::pressure_updates_number > 1)
+        reach += param::pressure_updates_number - 1;
+      boundary::pboundary_generate(
+        tree_.entities(), std::max(2.5, reach) * smoothinglength);
       balance_entities();
       localnbodies_ = tree_.entities().size();
       MPI_Allreduce(&localnbodies_, &totalnbodies_, 1, MPI_INT64_T, MPI_SUM,
-- 
2.43.0


From cba7420955d8f903ca5e36da7126fec456d99c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 37/54] fix: a missing iteration loaded another snapshot in
 multiple-file mode

---
 mpisph/io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..80e2ca6 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -521,7 +521,7 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
+  int step = -1, found = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -566,15 +566,17 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
                        << " in file " << fname << std::endl;
         FULLSTOP;
       }
-      H5Fclose(file_id);
+      H5P_closeFile(file_id);
 
       // check if this is what we are looking for
-      if(file_iteration == iteration)
+      if(file_iteration == iteration) {
+        found = step;
         break;
+      }
     }
     closedir(d);
   }
-  return step;
+  return found;
 }
 
 /*
-- 
2.43.0


From 77e0795987eb4e67fd311de613e49e718b9d08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 38/54] fix: old snapshots in another directory were not
 removed, long prefixes overflowed

---
 mpisph/io.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 80e2ca6..a7aedfc 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -48,7 +48,7 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
-const int MAX_FNAME_LEN = 256;
+const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
 
@@ -616,8 +616,9 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          sprintf(output_filename, "%s/%s", output_dirname, dir->d_name);
+          if(remove(output_filename) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << output_filename
                           << std::endl;
             ++n_deleted;
           }
@@ -715,7 +716,7 @@ inputDataHDF5(std::vector<body> & bodies,
       }
 
       // open it
-      char step_filename[128];
+      char step_filename[MAX_FNAME_LEN];
       sprintf(step_filename, "%s_%05d.h5part", input_file_prefix, step);
       log_one(warn) << "Reading from file " << step_filename << std::endl;
 
@@ -890,7 +891,7 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Barrier(comm_);
   log_one(trace) << "Output particles" << std::flush;
 
-  char filename[128];
+  char filename[MAX_FNAME_LEN];
   if(param::out_h5data_separate_iterations)
     sprintf(filename, "%s_%05d.h5part", fileprefix, step);
   else
-- 
2.43.0


From 339010e380b9b1e26d6c665dc8fba3efad63d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 39/54] fix: the first output of a continued series was lost
 when it is not due at the restart

---
 mpisph/io.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index a7aedfc..a200cbc 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -48,6 +48,8 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
+// Iteration of the snapshot a run continues from, already in its output
+static int64_t continued_iteration = -1;
 const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
@@ -733,6 +735,7 @@ inputDataHDF5(std::vector<body> & bodies,
   if(strcmp(output_file_prefix, input_file_prefix) != 0) {
     H5P_removePrefix(output_file_prefix, -1);
     output_step = 0;
+    continued_iteration = -1;
   }
   else { // --- output prefix == input prefix
 
@@ -776,7 +779,8 @@ inputDataHDF5(std::vector<body> & bodies,
       }
       H5P_closeFile(outputFile);
     }
-    output_step = startStep;
+    output_step = startStep + 1;
+    continued_iteration = startIteration;
   } // if input_prefix == output_prefix
 
   if(dataFile == 0) {
@@ -882,6 +886,11 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Comm comm = MPI_COMM_WORLD) {
 
   comm_ = comm;
+
+  // Continuing a series: the first snapshot is already there
+  if(iteration == continued_iteration)
+    return;
+
   int step = output_step++;
 
   int size, rank;
-- 
2.43.0


From a3585a967a4d39efe3d6ea2f4e1b139cf1c30346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 40/54] fix: report a missing input file or step instead of
 reading garbage

---
 mpisph/io.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index a200cbc..5f71b33 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -94,6 +94,9 @@ H5P_openFile(const char * filename, unsigned int flags) {
   if(access(filename, F_OK) != -1) {
     file_id = H5Fopen(filename, flags, plist_id);
   }
+  else if(flags == H5F_ACC_RDONLY) {
+    file_id = -1; // nothing to read
+  }
   else {
     file_id = H5Fcreate(filename, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
   }
@@ -666,6 +669,11 @@ inputDataHDF5(std::vector<body> & bodies,
   if(startIteration == 0) {
 
     dataFile = H5P_openFile(input_filename, H5F_ACC_RDONLY);
+    if(dataFile < 0 or not H5P_hasStep(dataFile, startStep)) {
+      log_one(error) << "Cannot find data file " << input_filename
+                     << " with Step#" << startStep << std::endl;
+      FULLSTOP;
+    }
   }
   // ------------- *** OR *** START FROM SPECIFIED ITERATION  ----------
   else {
@@ -773,9 +781,7 @@ inputDataHDF5(std::vector<body> & bodies,
                      << std::endl;
       if(startStep != lastStep) {
         log_one(error) << "First step not last step in output" << std::endl;
-        H5P_closeFile(outputFile);
-        MPI_Barrier(comm_);
-        MPI_Finalize();
+        FULLSTOP;
       }
       H5P_closeFile(outputFile);
     }
@@ -783,14 +789,6 @@ inputDataHDF5(std::vector<body> & bodies,
     continued_iteration = startIteration;
   } // if input_prefix == output_prefix
 
-  if(dataFile == 0) {
-    log_one(error) << "Cannot find data file" << std::endl;
-    MPI_Barrier(comm_);
-    MPI_Finalize();
-  }
-
-  int val = H5P_hasStep(dataFile, startStep);
-
   // If yes, get into this step
   H5P_setStep(dataFile, startStep);
   // Get the number of particles
-- 
2.43.0


From dcaf55424bcbe4b70aa3d78bbc9a5149e52abe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 41/54] fix: ids generated for files without them clashed or
 aborted on uneven shares

---
 mpisph/io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 5f71b33..0839c70 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -340,11 +340,11 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-      if(rank == size - 1) // last rank
+      if(rank == size - 1 and not bodies.empty()) // last rank
         assert(IO_nparticles == bodies.back().id());
     }
   }
-- 
2.43.0


From 87becf9ce037fb93d2f461b43ed3fe22b0b2664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:30 +0000
Subject: [PATCH 42/54] fix: the Rayleigh-Taylor box of periodic z is adjusted
 from its own height

---
 app/id_generators/RT/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index 325d642..3a6f9fd 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -156,7 +156,7 @@ set_derived_params() {
 
   // adjust domain height
   if(gdimension >= 3 and periodic_boundary_z) {
-    int Nz = (int)(box_length / dz) - 1;
+    int Nz = (int)(box_height / dz) - 1;
     for(int k = Nz; k < Nz * 100; ++k) {
       double w2 = floor(k * dz / dz_t + b_tol) * dz_t;
       if(fabs(w2 - k * dz) < lattice_mismatch_tolerance * dz_t) {
-- 
2.43.0


From 2d88c275a509dcafadd4ab189e3c0168e2d98650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:30 +0000
Subject: [PATCH 43/54] fix: the energy ramp of the implosion starts from its
 inner value for every radius

---
 app/id_generators/implosion/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 2d8483c..72dbf55 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -189,7 +189,7 @@ main(int argc, char * argv[]) {
   double u_10 = 1.e4;
   double u_08 = 1.0;
   double slope = (u_10 - u_08) / (1.0 * sphere_radius - 0.8 * sphere_radius);
-  double yint = 1.0 * sphere_radius - slope * 0.8 * sphere_radius;
+  double yint = u_08 - slope * 0.8 * sphere_radius;
 
   // Assign density, pressure, etc. to particles
   for(int64_t part = 0; part < nparticles; ++part) {
-- 
2.43.0


From c0f56ea6d015db25107a75799cfaf13cb8b229fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:30 +0000
Subject: [PATCH 44/54] fix: equally spaced shock tube particles carry the mass
 of their volume

---
 app/id_generators/sodtube/main.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 10a8754..4ae6c33 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -491,6 +491,11 @@ main(int argc, char * argv[]) {
   double timestep = 0.5 * sph_separation / cs;
 
   if(equal_separation) {
+    // each of the three regions has the same volume
+    double volume = 1.0;
+    for(unsigned short k = 0; k < gdimension; ++k)
+      volume *= cbox_max[k] - cbox_min[k];
+
     for(int64_t part = 0; part < tparticles; ++part) {
       id[part] = posid++;
       if(particle_lattice::in_domain_1d(
@@ -498,13 +503,13 @@ main(int argc, char * argv[]) {
         P[part] = pressure_1;
         rho[part] = rho_1;
         vx[part] = vx_1;
-        m[part] = rho[part] / (double)parts_mid;
+        m[part] = rho[part] * volume / (double)parts_mid;
       }
       else {
         P[part] = pressure_2;
         rho[part] = rho_2;
         vx[part] = vx_2;
-        m[part] = rho[part] / (double)parts_lr;
+        m[part] = rho[part] * volume / (double)parts_lr;
       }
 
       // compute internal energy using gamma-law eos
-- 
2.43.0


From 8c3ad2743c9578feda5dc908e339acced73a84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 45/54] fix: the wind tunnel writes the particles it generated,
 with the mass of their volume

---
 app/id_generators/wtunnel/main.cc | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 00d32fa..95e274c 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -169,12 +169,17 @@ main(int argc, char * argv[]) {
   // The value for constant timestep
   double timestep = 0.5 * sph_separation / cs;
 
+  // volume of the section
+  double volume = 1.0;
+  for(unsigned short k = 0; k < gdimension; ++k)
+    volume *= cbox_max[k] - cbox_min[k];
+
   for(int64_t part = 0; part < tparticles; ++part) {
     id[part] = posid++;
     P[part] = pressure_initial;
     rho[part] = rho_initial;
     vx[part] = -flow_velocity;
-    m[part] = rho_initial / (double)tparticles;
+    m[part] = rho_initial * volume / (double)tparticles;
 
     // compute internal energy using gamma-law eos
     u[part] = pressure_initial / (poly_gamma - 1.) / rho_initial;
@@ -191,27 +196,27 @@ main(int argc, char * argv[]) {
 
   int use_fixed_timestep = 1;
   // add the global attributes
-  H5P_writeAttribute(dataFile, "nparticles", &nparticles);
+  H5P_writeAttribute(dataFile, "nparticles", &tparticles);
   H5P_writeAttribute(dataFile, "timestep", &timestep);
   int dim = gdimension;
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  H5P_setNumParticles(tparticles);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, tparticles);
+  H5P_writeDataset(dataFile, "y", y, tparticles);
+  H5P_writeDataset(dataFile, "z", z, tparticles);
+  H5P_writeDataset(dataFile, "vx", vx, tparticles);
+  H5P_writeDataset(dataFile, "vy", vy, tparticles);
+  H5P_writeDataset(dataFile, "h", h, tparticles);
+  H5P_writeDataset(dataFile, "rho", rho, tparticles);
+  H5P_writeDataset(dataFile, "u", u, tparticles);
+  H5P_writeDataset(dataFile, "P", P, tparticles);
+  H5P_writeDataset(dataFile, "m", m, tparticles);
+  H5P_writeDataset(dataFile, "id", id, tparticles);
 
   H5P_closeFile(dataFile);
   delete[]  x; 
-- 
2.43.0


From ca6710de453deb8b204ff3e3e7c24743bb92e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 46/54] fix: the mass of a one-dimensional sphere is that of
 its radius

---
 app/id_generators/noh/main.cc   | 5 ++++-
 app/id_generators/sedov/main.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/id_generators/noh/main.cc b/app/id_generators/noh/main.cc
index c30e72a..7f92922 100644
--- a/app/id_generators/noh/main.cc
+++ b/app/id_generators/noh/main.cc
@@ -87,7 +87,10 @@ set_derived_params() {
 
   // total mass
   if constexpr(gdimension == 1) {
-    total_mass = rho_initial * box_length;
+    if(domain_type == 0) // a segment
+      total_mass = rho_initial * box_length;
+    else if(domain_type == 1) // of given radius
+      total_mass = rho_initial * 2. * sphere_radius;
   }
   if constexpr(gdimension == 2) {
     if(domain_type == 0) // a box
diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index c54b381..4f88f1a 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -108,7 +108,10 @@ set_derived_params() {
 
   // total mass
   if constexpr(gdimension == 1) {
-    total_mass = rho_initial * box_length;
+    if(domain_type == 0) // a segment
+      total_mass = rho_initial * box_length;
+    else if(domain_type == 1) // of given radius
+      total_mass = rho_initial * 2. * sphere_radius;
   }
   if constexpr(gdimension == 2) {
     if(domain_type == 0) // a box
-- 
2.43.0


From 7d2023a8c5a3c180d3b1c2975c68bdc6cbfca8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 47/54] fix: the blast energy is spread over the masses of the
 modified particles

---
 app/id_generators/sedov/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index 4f88f1a..f1d7ada 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -242,7 +242,7 @@ main(int argc, char * argv[]) {
     double r = magnitude(particle.coordinates());
     if(r < sedov_blast_radius) {
       particles_blast++;
-      mass_blast += mass_particle;
+      mass_blast += modify_initial_data ? particle.mass() : mass_particle;
     }
   }
 
-- 
2.43.0


From a150e03744fd4842ee0ac84ee5066ac6b311c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 48/54] fix: perturbed particles fall in with the configured
 velocity

---
 app/id_generators/noh/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/id_generators/noh/main.cc b/app/id_generators/noh/main.cc
index 7f92922..0351ee0 100644
--- a/app/id_generators/noh/main.cc
+++ b/app/id_generators/noh/main.cc
@@ -280,6 +280,7 @@ main(int argc, char * argv[]) {
     // set particle velocity (inward)
     point_t vp = 0;
     double infall_velocity = noh_infall_velocity;
+    r = magnitude(rp); // of the perturbed position
     if(r > 0) {
       vp = rp * (-1.0 * infall_velocity) / r;
     }
-- 
2.43.0


From 946f6a60d5c7ede29ebcf51feaa098be399bc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 49/54] fix: initial data of sedov and noh go to the file the
 drivers start from

---
 app/id_generators/noh/main.cc   | 3 +++
 app/id_generators/sedov/main.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/app/id_generators/noh/main.cc b/app/id_generators/noh/main.cc
index 0351ee0..1657762 100644
--- a/app/id_generators/noh/main.cc
+++ b/app/id_generators/noh/main.cc
@@ -307,6 +307,9 @@ main(int argc, char * argv[]) {
   delete[] y;
   delete[] z;
 
+  // evolution drivers start from a single file, whatever their output
+  SET_PARAM(out_h5data_separate_iterations, false);
+
   // write the file; iteration for initial data MUST BE zero!!
   bs.write_bodies(initial_data_prefix, 0, 0.0);
   MPI_Finalize();
diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index f1d7ada..e1661c3 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -327,6 +327,9 @@ main(int argc, char * argv[]) {
   delete[] y;
   delete[] z;
 
+  // evolution drivers start from a single file, whatever their output
+  SET_PARAM(out_h5data_separate_iterations, false);
+
   // write the file; iteration for initial data MUST BE zero!!
   bs.write_bodies(initial_data_prefix, 0, 0.0);
   MPI_Finalize();
-- 
2.43.0


From e2243988f9b01d8a4adb66eb088234cd627924b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 50/54] fix: log packets copy the whole time stamp, not only up
 to its first zero byte

---
 include/log.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/log.h b/include/log.h
index 2af663f..23b1a5c 100644
--- a/include/log.h
+++ b/include/log.h
@@ -202,9 +202,8 @@ struct packet_t {
       std::exit(1);
     } // if
 
-    strncpy(data_, reinterpret_cast<const char *>(&stamp.tv_sec), sec_bytes);
-    strncpy(data_ + sec_bytes, reinterpret_cast<const char *>(&stamp.tv_usec),
-      usec_bytes);
+    memcpy(data_, &stamp.tv_sec, sec_bytes);
+    memcpy(data_ + sec_bytes, &stamp.tv_usec, usec_bytes);
 
     std::ostringstream oss;
     oss << msg;
-- 
2.43.0


From f2ba74dacf67dd0183b17a7816a5385f5bba5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 51/54] fix: log packets cut messages longer than
 LOG_MAX_MESSAGE_SIZE instead of overrunning

---
 include/log.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/log.h b/include/log.h
index 23b1a5c..0803556 100644
--- a/include/log.h
+++ b/include/log.h
@@ -208,7 +208,9 @@ struct packet_t {
     std::ostringstream oss;
     oss << msg;
 
-    strcpy(data_ + sec_bytes + usec_bytes, oss.str().c_str());
+    strncpy(data_ + sec_bytes + usec_bytes, oss.str().c_str(),
+      LOG_MAX_MESSAGE_SIZE - 1);
+    data_[sec_bytes + usec_bytes + LOG_MAX_MESSAGE_SIZE - 1] = '\0';
   } // packet_t
 
   time_t const & seconds() const {
-- 
2.43.0


From 6f9c72a4d9da5cb9f364be7f984d72870e6935da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 52/54] fix: log messages still queued when the program ends
 are flushed

---
 include/log.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index 0803556..1ce0af5 100644
--- a/include/log.h
+++ b/include/log.h
@@ -13,6 +13,7 @@
 #endif // __GNUC__
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <cstdlib>
 #include <cstring>
@@ -306,7 +307,7 @@ private:
   std::thread flusher_thread_;
   std::mutex packets_mutex_;
   std::vector<packet_t> packets_;
-  bool run_flusher_ = true;
+  std::atomic<bool> run_flusher_{true};
   bool initialized_ = false;
 
 }; // mpi_state_t
@@ -835,9 +836,13 @@ private:
 
 void
 flush_packets() {
-  while(mpi_state_t::instance().run_flusher()) {
+  bool run = true;
+  while(run) {
     usleep(LOG_PACKET_FLUSH_INTERVAL);
 
+    // read before flushing, so that what was sent before the end is flushed
+    run = mpi_state_t::instance().run_flusher();
+
     {
       std::lock_guard<std::mutex> guard(
         mpi_state_t::instance().packets_mutex());
-- 
2.43.0


From b3d03b3b1586a32b464631bfc5ca98c1b6df03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 53/54] fix: log messages written directly are not mixed with
 those of the flusher thread

---
 include/log.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/log.h b/include/log.h
index 1ce0af5..35b8fa9 100644
--- a/include/log.h
+++ b/include/log.h
@@ -1009,6 +1009,9 @@ struct log_message_t {
       send_to_one(log_t::instance().buffer_stream().str().c_str());
     }
     else {
+      // the flusher thread writes to the same stream
+      std::lock_guard<std::mutex> guard(
+        mpi_state_t::instance().packets_mutex());
       log_t::instance().stream() << log_t::instance().buffer_stream().str();
     } // if
 
-- 
2.43.0


From 15a8aeaaf97ed3de7e76ed673a1f79bb876797e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 54/54] fix: log_container prints the elements with every
 delimiter

---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index 35b8fa9..f481577 100644
--- a/include/log.h
+++ b/include/log.h
@@ -1486,8 +1486,8 @@ enum log_delimiters_t : size_t {
     for(auto c = container.begin(); c != container.end(); ++c) {               \
       (delimiter == flecsph_log::newline) &&                                   \
         ss << OUTPUT_CYAN("[C") << OUTPUT_LTGRAY(" entry ") << entry++         \
-           << OUTPUT_CYAN("]") << std::endl                                    \
-           << *c;                                                              \
+           << OUTPUT_CYAN("]") << std::endl;                                   \
+      ss << *c;                                                                \
       (c != --container.end()) && ss << delim;                                 \
     }                                                                          \
     logm(severity) << ss.str() << std::endl;                                   \
-- 
2.43.0

