From af8ffbe1e7eec95c4e760129883a4c5f681a9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 01/50] fix: never select a zero-weight item in random_choice
 when the drawn number is exactly 0

---
 uxsim/trafficpp/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/utils.h b/uxsim/trafficpp/utils.h
index 276c387..26d963b 100644
--- a/uxsim/trafficpp/utils.h
+++ b/uxsim/trafficpp/utils.h
@@ -78,7 +78,7 @@ inline T *random_choice(const vector<T *> &items, const vector<double> &weights,
     double accum = 0.0;
     for (size_t i = 0; i < items.size(); i++){
         accum += weights[i];
-        if (r <= accum){
+        if (weights[i] > 0.0 && r <= accum){
             return items[i];
         }
     }
-- 
2.43.0


From 7dbaee483bb49ece2fe2248932b81dd20a8e7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 02/50] fix: keep the initial signal state within a cycle when
 signal_offset is longer than the cycle

---
 uxsim/trafficpp/traffi.cpp | 3 ++-
 uxsim/uxsim.py             | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..c583d85 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -68,7 +68,8 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
     for (auto s : this->signal_intervals) cycle_length += s;
 
     if (this->signal_intervals.size() > 1 || (this->signal_intervals.size() == 1 && this->signal_intervals[0] != 0)){
-        double offset = cycle_length - this->signal_offset;
+        double offset = std::fmod(cycle_length - this->signal_offset, cycle_length);
+        if (offset < 0) offset += cycle_length; // the offset may be longer than a cycle
         int i = 0;
         while (true){
             if (offset < this->signal_intervals[i]){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..f48b309 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -100,6 +100,7 @@ class Node:
         offset = s.cycle_length-s.signal_offset
 
         if s.signal != [0]:
+            offset %= s.cycle_length #the offset may be longer than a cycle
             i = 0
             while 1:
                 if offset < s.signal[i]:
-- 
2.43.0


From 500fc986f30383548cd61f96d26092bde9d103f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 03/50] fix: C++ addVehicle creates exactly one vehicle at the
 requested timestep for non-integer time steps

---
 uxsim/uxsim_cpp_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..754aad0 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -520,7 +520,7 @@ class CppVehicle:
 
     @property
     def departure_time(self):
-        return int(self._cpp_vehicle.departure_time / self.W.DELTAT)
+        return int(round(self._cpp_vehicle.departure_time / self.W.DELTAT))
 
     @property
     def departure_time_in_second(self):
@@ -533,7 +533,7 @@ class CppVehicle:
         if at >= 0:
             if self.state == "abort":
                 return -1
-            return int(at / self.W.DELTAT)
+            return int(round(at / self.W.DELTAT))
         return -1
 
     @property
@@ -936,7 +936,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -958,7 +958,7 @@ class CppWorld:
 
         n_before = self._cpp_world.vehicle_count
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float((ts + 0.5) * self.DELTAT), float((ts + 1.5) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)  # mid-step bounds and 1.5 platoons: exactly one vehicle regardless of rounding
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From a6609f6bd6ecfd8ecc97b9717334e48c9993f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 04/50] fix: partial C++ execution does not stop one step short
 when the time step is not exactly representable

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 754aad0..d305dfd 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1189,7 +1189,7 @@ class CppWorld:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From e7d9d715ad86dc4be5e0b15e144d7dae76a1abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 05/50] fix: logs of C++ vehicles read during a pause are
 refreshed after the simulation continues

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index d305dfd..a889e33 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1190,6 +1190,8 @@ class CppWorld:
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
         self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
+        for veh in self._veh_by_index:
+            veh._log_cache = None  # logs read during a pause are outdated now
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From c07d893e8f2182824f3a542a8b3b50dee72bf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 06/50] fix: C++ addNode with auto_rename registers the renamed
 node

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a889e33..291a074 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From 71e390234e7f12f5feea6ea7de7c0802c262f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 07/50] fix: keep fractional departure times in the vehicle
 route log

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f48b309..f3edd8e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1116,7 +1116,7 @@ class Vehicle:
         s.log_lane = [] #車線
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
-        s.log_t_link : list[tuple[int,str|Link]] = [[int(s.departure_time*s.W.DELTAT), "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
+        s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
         s.link_old = None
         
         s.distance_traveled = 0
-- 
2.43.0


From 07227f1954b990ca66a597c17b2d89c4c304ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 08/50] fix: departure_time_in_second is no longer multiplied
 by the time step when the departure is given in seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f3edd8e..2892324 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1047,7 +1047,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 97e312bf069334643b807e1d1426b8c8058d3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 09/50] fix: mfd_to_pandas returns one row per aggregation
 interval

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..09f03a9 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2012,7 +2012,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From fcb03bd7332a9a57905ccd78e25bc4381bc51fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 10/50] fix: default group names of vehicle_groups_to_pandas

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 09f03a9..ddb6b14 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1918,7 +1918,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From c8a1f44d86cc06ce1a5881fcaba3d3928be3f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 11/50] fix: eular_dx given to a Link is used for its traffic
 states

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2892324..834dd93 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -617,6 +617,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From bd896b140da23c4173743fdb52b6118f2597c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 12/50] fix: add_dest accepts a node name also when the taxi
 has no destination

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 834dd93..e7e9263 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1384,7 +1384,7 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
+                s.dest = s.W.get_node(dest)
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-- 
2.43.0


From 87eb9828dd54d6e9304fee651df9bc9cd62a5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 13/50] fix: OD statistics use the best of parallel links and
 cover ODs without completed trips

---
 uxsim/analyzer.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index ddb6b14..9b447b1 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -106,6 +106,7 @@ class Analyzer:
         
         s.total_distance_traveled = np.sum(df["average_distance_traveled_per_veh"]*df["total_trips"])
 
+        df = df[df["completed_trips"] > 0]
         if s.trip_completed:
             s.total_travel_time = np.sum(df["completed_trips"]*df["average_travel_time"])
             s.average_travel_time = s.total_travel_time/s.trip_completed
@@ -141,20 +142,15 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if link.capacity_in != 0: #流入禁止の場合は通行不可
+                #並行リンクがある場合は最小のものを使う
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
@@ -171,9 +167,10 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+        for o,d in s.od_trips.keys():
+            if (o,d) in s.od_tt:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
@@ -1777,7 +1774,7 @@ class Analyzer:
                     var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
                     stddiv_distance_traveled = np.sqrt(var_distance_traveled)
 
-                    average_free_travel_time = (completed_tripss*free_travel_time_times).sum()/completed_trips
+                    average_free_travel_time = (completed_tripss*free_travel_time_times)[completed_tripss>0].sum()/completed_trips
                 else:
                     average_distance_traveled = np.nan
                     var_distance_traveled = np.nan
-- 
2.43.0


From 475151f86a756dc6dd2d3793a8569d2e96173087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 14/50] fix: analysis results computed during a pause are
 recomputed after the simulation continues

---
 uxsim/analyzer.py          | 12 ++++++++++++
 uxsim/uxsim.py             |  2 ++
 uxsim/uxsim_cpp_wrapper.py |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 9b447b1..7f60e52 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -75,6 +75,15 @@ class Analyzer:
         
         plt.rcParams["font.family"] = get_font_for_matplotlib(font_matplotlib)
 
+    def reset_computed(s):
+        """
+        Discard the cached analysis results, because the simulation was continued after they were computed.
+        """
+        s.flag_edie_state_computed = 0
+        s.flag_trajectory_computed = 0
+        s.flag_pandas_convert = 0
+        s.flag_od_analysis = 0
+
     def outdir_set(s, fname:str):
         """
         Create the file output directory if it does not exist. Use this when you specify the filename. A kind of lazy directory creation to avoid unnecessary directory creation.
@@ -211,6 +220,9 @@ class Analyzer:
         else:
             s.flag_trajectory_computed = 1
 
+        for l in s.W.LINKS:
+            l.tss, l.xss, l.cs, l.ls, l.names = [], [], [], [], []
+
         for veh in s.W.VEHICLES.values():
             l_old = None
             for i in lange(veh.log_t):
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e7e9263..c59aba0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2453,6 +2453,8 @@ class World:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
+        W.analyzer.reset_computed()
+
         #the main loop
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 291a074..072f420 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1188,6 +1188,8 @@ class CppWorld:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
+        self.analyzer.reset_computed()
+
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
         self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         for veh in self._veh_by_index:
-- 
2.43.0


From 5eb92d3af0340299e7a8c76d7b8806cc7bd30b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 15/50] fix: C++ get_xy_coords returns the position at the
 given time

---
 uxsim/uxsim_cpp_wrapper.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 072f420..3441a18 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -718,11 +718,18 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
-            return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
+        if t != -1:
+            i = int(t / self.W.DELTAT)
+            link, x = self.log_link[i], self.log_x[i]
+        else:
+            link, x = self.link, self.x
+            if link is None:
+                return self.orig.x, self.orig.y
+        if link == -1:
+            return (-1, -1)
+        ratio = x / link.length if link.length > 0 else 0
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 
-- 
2.43.0


From b3c69aeddcf39aa884e98086b385254571bcb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 16/50] fix: a waiting vehicle counts as a zero-speed sample in
 the average speed

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c59aba0..dd539c7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1532,7 +1532,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From 73d7490e5ed0afa222b4e523d51b07b89313f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 17/50] fix: the distance carried over to the next link counts
 as distance traveled

---
 uxsim/trafficpp/traffi.cpp | 1 +
 uxsim/uxsim.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index c583d85..b165ec6 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -417,6 +417,7 @@ void Node::transfer(){
         }
         chosen_veh->x = x_next_mr;
         chosen_veh->v += chosen_veh->x / w->delta_t;
+        chosen_veh->distance_traveled += chosen_veh->x;
         chosen_veh->move_remain = 0.0;
 
         // If the new front vehicle of inlink is waiting for trip end, let it end
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index dd539c7..ba1d75e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -393,6 +393,7 @@ class Node:
                     
                 veh.x = x_next
                 veh.v += veh.x/s.W.DELTAT
+                veh.distance_traveled += veh.x
                 veh.move_remain = 0
 
                 #今移動した車両の後続車両がトリップ終了待ちの場合，トリップ終了させる
-- 
2.43.0


From 1660dcfa72f2105df2e2fe9aafee486d980c209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 18/50] fix: logs of C++ vehicles that have not departed
 contain the time spent at home

---
 uxsim/trafficpp/traffi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index b165ec6..ff09795 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -2003,7 +2003,9 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         const Vehicle *v = vehicles[vi];
         int n_missing = 0;
         if (v->log_size > 0 && v->log_t_at(0) > 0) {
-            n_missing = static_cast<int>(v->log_t_at(0) / delta_t);
+            n_missing = v->log_first_ts;
+        } else if (v->log_size == 0 && v->state == vsHOME && vehicle_log_mode){
+            n_missing = static_cast<int>(timestep);  // not departed yet: at home in every executed timestep
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
-- 
2.43.0


From 46348b255505979f968e612964fbcdfde5c1fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:25 +0000
Subject: [PATCH 19/50] fix: no row with speed -1 for the end of a trip in
 gps_like_log_to_pandas

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 7f60e52..e4c0fea 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1667,9 +1667,9 @@ class Analyzer:
         out = [["name", "t", "x", "y", "v"]]
         for veh in s.W.VEHICLES.values():
             for i,t in enumerate(veh.log_t):
-                x, y = veh.get_xy_coords(t)
-                if (x, y) == (-1, -1):
+                if veh.log_link[i] == -1:
                     continue
+                x, y = veh.get_xy_coords(t)
                 v = veh.log_v[i]
                 out.append([veh.name, t, x, y, v])
         s.df_gps_like_log = pd.DataFrame(out[1:], columns=out[0])
-- 
2.43.0


From 29066baaf532638bbfb1c147c3ab19b7aded3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 20/50] fix: curves of C++ links read during a pause end at the
 current time instead of containing zeros for the future

---
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 3441a18..21c0da1 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -295,7 +295,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W._cpp_world.timestep]
 
     @property
     def cum_departure(self):
@@ -303,7 +303,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W._cpp_world.timestep]
 
     @property
     def traveltime_instant(self):
@@ -311,7 +311,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W._cpp_world.timestep]
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From ff3e5e4cb91d7826c976b81735ed132ce58ab7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 21/50] fix: critical flow/density and current state of a link
 follow changes of its speed or jam density

---
 uxsim/uxsim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ba1d75e..0bf4584 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -971,6 +971,12 @@ class Link:
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
+            #the current state depends on the free-flow speed
+            s._speed = -1
+            s._flow = -1
+            s._num_vehicles_queue = -1
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
@@ -982,6 +988,8 @@ class Link:
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative jam_density at {s}", UserWarning)
 
-- 
2.43.0


From 3a2c29a54bc19d5c9b5887e19ed5715f6a8201fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 22/50] fix: average_speed of C++ links is based on the
 instantaneous travel time, as documented and as in Python

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 21c0da1..4c00182 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -438,7 +438,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
+        tt = self.instant_travel_time(t)
         return self.length / tt if tt > 0 else self.u
 
     def average_flow(self, t):
-- 
2.43.0


From f65ae0d00e688ab86a222a7cf10fe688a802f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 23/50] fix: average_travel_time_between of C++ links works
 while the simulation is paused

---
 uxsim/uxsim_cpp_wrapper.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 4c00182..bff92bf 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -256,7 +256,7 @@ class CppLink:
 
         # Containers for analyzer compatibility
         self.vehicles = deque()
-        self.vehicles_enter_log = {}
+        self._vehicles_enter_log = {}
         self._traveltime_actual = []
         self.congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
@@ -401,6 +401,13 @@ class CppLink:
     def inflow_between(self, t0, t1):
         return (self.arrival_count(t1) - self.arrival_count(t0)) / (t1 - t0) if t1 != t0 else 0
 
+    @property
+    def vehicles_enter_log(self):
+        # The entry logs are kept in C++ and read when they are needed (also while the simulation is paused)
+        if self.W.finalized and self.W._enter_log_timestep != self.W.T:
+            self.W._build_vehicles_enter_log()
+        return self._vehicles_enter_log
+
     def average_travel_time_between(self, t0, t1):
         t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
         if len(t_list) == 0:
@@ -877,6 +884,7 @@ class CppWorld:
         if vehicle_logging_timestep_interval not in (0, 1, -1):
             warnings.warn("vehicle_logging_timestep_interval is not 0, 1, or -1. C++ mode only supports 0 (no logging) and 1 (full logging). The value will be treated as 1 (logging enabled).", stacklevel=2)
         self._simulation_done = False
+        self._enter_log_timestep = 0  # time step for which the links' entry logs have been built
         self._skip_log_on_terminate = False
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
@@ -1387,8 +1395,9 @@ class CppWorld:
 
     def _build_vehicles_enter_log(self):
         """Reconstruct each link's vehicles_enter_log from C++ bulk data."""
+        self._enter_log_timestep = self.T
         for link in self.LINKS:
-            link.vehicles_enter_log = {}
+            link._vehicles_enter_log = {}
         try:
             data = self._cpp_world.build_enter_log_data()
             link_ids = data['link_id']
@@ -1400,13 +1409,13 @@ class CppWorld:
             for i in range(len(link_ids)):
                 lid = int(link_ids[i])
                 if 0 <= lid < n_links:
-                    links_list[lid].vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
+                    links_list[lid]._vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
         except AttributeError:
             # Fallback for older C++ builds without build_enter_log_data
             for veh in self.VEHICLES.values():
                 for t, l in veh.log_t_link:
                     if isinstance(l, CppLink):
-                        l.vehicles_enter_log[t] = veh
+                        l._vehicles_enter_log[t] = veh
 
     def get_node(self, node):
         if node is None:
-- 
2.43.0


From ebf92bc3f07bde260ff61d3b13c0404ad35bd4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 24/50] fix: link_cumulative_to_pandas works while the
 simulation is paused

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index e4c0fea..d650259 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2070,7 +2070,7 @@ class Analyzer:
         """
         out = [["link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"]]
         for link in s.W.LINKS:
-            for i in range(s.W.TSIZE):
+            for i in lange(link.cum_arrival):
                 out.append([link.name, i*s.W.DELTAT, link.cum_arrival[i], link.cum_departure[i], link.traveltime_actual[i], link.traveltime_instant[i]])
         s.df_link_cumulative = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_cumulative
-- 
2.43.0


From 0649e3433d90985440e66acde5a5b071f9e452c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 25/50] fix: adddemand_area2area2/nodes2nodes2 handle a single
 common origin/destination, and in C++ mode keep the attribute and avoid trips
 to the origin

---
 uxsim/uxsim.py             | 20 ++++++++++++++------
 uxsim/uxsim_cpp_wrapper.py | 19 +++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 0bf4584..b4be3e0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2265,10 +2265,14 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
-            d2 = d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                dests_other = [dd for dd in dests if dd!=d]
+                if len(dests_other) > 0:
+                    d = W.rng.choice(dests_other)
+                else:
+                    #the only destination is also an origin: use another origin
+                    o = W.rng.choice([oo for oo in origs if oo!=o])
+            W.addVehicle(o, d, t, attribute=attribute, direct_call=False)
 
 
     @demand_info_record
@@ -2316,10 +2320,14 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
-            d2 = d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                dests_other = [dd for dd in dests if dd!=d]
+                if len(dests_other) > 0:
+                    d = W.rng.choice(dests_other)
+                else:
+                    #the only destination is also an origin: use another origin
+                    o = W.rng.choice([oo for oo in origs if oo!=o])
+            W.addVehicle(o, d, t, attribute=attribute, direct_call=False)
 
     def finalize_scenario(W, tmax:float|None=None):
         """
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bff92bf..f19024c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1070,7 +1070,14 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            if o == d:
+                dests_other = [dd for dd in dests if dd != d]
+                if dests_other:
+                    d = self.rng.choice(dests_other)
+                else:
+                    # the only destination is also an origin: use another origin
+                    o = self.rng.choice([oo for oo in origs if oo != o])
+            self.addVehicle(o, d, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1083,10 +1090,14 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            d2 = d
             if o == d:
-                d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+                dests_other = [dd for dd in dests if dd != d]
+                if dests_other:
+                    d = self.rng.choice(dests_other)
+                else:
+                    # the only destination is also an origin: use another origin
+                    o = self.rng.choice([oo for oo in origs if oo != o])
+            self.addVehicle(o, d, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 46d2f4a032808fa44d611ff39f7d34ca3089a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 26/50] fix: get_nearest_node finds nodes farther than 100 km

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b4be3e0..29de137 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2622,7 +2622,7 @@ class World:
         object
             The nearest Node object.
         """
-        min_dist = 1e10
+        min_dist = float("inf")
         nearest_node = None
         for node in W.NODES:
             dist = (node.x-x)**2 + (node.y-y)**2
-- 
2.43.0


From 6aef2d3b77709aad936b2549c653fb2fed4cb161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 27/50] fix: addVehicle in C++ mode respects trip_abort and a
 positional name

---
 uxsim/uxsim_cpp_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f19024c..e46311b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -954,7 +954,7 @@ class CppWorld:
         ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
-        name = kwargs.get('name')
+        name = args[3] if len(args) > 3 else kwargs.get('name')
         if name is not None:
             name = str(name)
             if name in self.VEHICLES:
@@ -1002,6 +1002,8 @@ class CppWorld:
             veh.name = name
             self.VEHICLES[name] = veh
             self.VEHICLES_LIVING[name] = veh
+        if 'trip_abort' in kwargs:
+            veh._cpp_vehicle.trip_abort = int(kwargs['trip_abort'])
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
-- 
2.43.0


From e24b7bfcd8cd7bc810c72e9947bc0da0370e9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 28/50] fix: the initial inflow allowance of links without
 capacity_in is the one of a step, so that a saved and loaded scenario behaves
 the same

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ff09795..42ef9be 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -507,7 +507,7 @@ Link::Link(
 
     if (this->capacity_in < 0.0){
         this->capacity_in = this->capacity * 2;
-        this->capacity_in_remain = this->capacity * 2;  // large initial value = effectively unlimited
+        this->capacity_in_remain = this->capacity_in * w->delta_t;
     } else {
         this->capacity_in_remain = this->capacity_in * w->delta_t;
     }
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 29de137..4653dbe 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -575,7 +575,7 @@ class Link:
         s.capacity_in = capacity_in
         if capacity_in == None:
             s.capacity_in = s.capacity*2
-            s.capacity_in_remain = s.capacity*2
+            s.capacity_in_remain = s.capacity_in*s.W.DELTAT
         else:
             s.capacity_in_remain = s.capacity_in*s.W.DELTAT
 
-- 
2.43.0


From 62a1e74d36ad0daf3fbfef97aa64fb6e7f9ac1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 29/50] fix: a jam density changed by change_jam_density is
 kept when the scenario is saved and loaded

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4653dbe..6ae589a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -983,6 +983,7 @@ class Link:
     def change_jam_density(s, new_value):
         if new_value >= 0:
             s.jam_density = new_value
+            s.jam_density_per_lane = None
             s.kappa = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
-- 
2.43.0


From 7eaaaef5e54188d67c475c33762f0f74e18aaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 30/50] fix: load_scenario defines the demand in the original
 order of calls

---
 uxsim/scenario_reader_writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..8824eed 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -33,6 +33,7 @@ def demand_info_record(func):
             
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
+            self.demand_info["call_order"].append(func_name)
         
         # 元の関数を呼び出す
         return func(self, *args, **kwargs)
@@ -194,7 +195,14 @@ def load_scenario(W, fname, network=True, demand=True):
         W.print(" Number of loaded nodes:", len(dat["Nodes"]))
         W.print(" Number of loaded links:", len(dat["Links"]))
     
-    if demand:
+    if demand and "call_order" in dat:
+        #reproduce the calls in the original order, as it affects the order of vehicles
+        calls = {demand_type: iter(dat[demand_type]) for demand_type in dict.fromkeys(dat["call_order"])}
+        for demand_type in dat["call_order"]:
+            getattr(W, demand_type)(**next(calls[demand_type]))
+        for demand_type in calls:
+            W.print(f" Number of loaded `{demand_type}`s:", len(dat[demand_type]))
+    elif demand:
         for demand_type in dat:
             if demand_type == 'adddemand':
                 for dem in dat[demand_type]:
-- 
2.43.0


From 4db6d5f9464cb59cfcce7219a13b7543941b6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 31/50] fix: W.TIME is the time of the current time step during
 the step, regardless of how the execution is split (boarding and arrival
 times of taxi trips depend on it)

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6ae589a..2636791 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2477,6 +2477,7 @@ class World:
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
+            W.TIME = W.T*W.DELTAT
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
-- 
2.43.0


From 83b06488f281f4e861ef095d57b61a66803bd725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 32/50] fix: default names of taxi trip requests are unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..1db95d5 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From 0dad586c979ccdb8b0484ad39b48e0c03cee3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 33/50] fix: a taxi whose next destination is the node it has
 just reached must not re-enter its link

---
 uxsim/TaxiHandler/TaxiHandler.py | 9 ++++++---
 uxsim/uxsim.py                   | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 1db95d5..d155f23 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -51,12 +51,15 @@ class TripRequest:
         The event of getting on a taxi. This is called via `Vehicle.event_node`.
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
-        s.taxi.add_dest(s.dest)
-        s.taxi.node_event[s.dest] = s.arrive_at_dest
-
         s.get_taxi_time = s.W.TIME
         
         del s.taxi.node_event[s.orig]
+
+        s.taxi.node_event[s.dest] = s.arrive_at_dest
+        if s.dest == s.orig:
+            s.arrive_at_dest()
+        else:
+            s.taxi.add_dest(s.dest)
     
     def arrive_at_dest(s):
         """
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2636791..1274e12 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1202,6 +1202,8 @@ class Vehicle:
                             s.end_trip()
                     elif s.mode == "taxi":
                         #proceed to next destination
+                        while len(s.dest_list) > 0 and s.dest_list[0] == s.link.end_node:
+                            s.dest_list.pop(0) #already there
                         if len(s.dest_list) > 0:
                             s.dest = s.dest_list.pop(0)
                         else:
-- 
2.43.0


From 415a3af4e37f668730fd5fcf770a93e873351e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 34/50] fix: the cost gap reported by the DTA solvers is the
 difference between the travelled and the cheapest route

---
 uxsim/DTAsolvers/DTAsolvers.py | 6 ++++--
 uxsim/trafficpp/dta_solver.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..df9d815 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -219,13 +219,14 @@ class SolverDUE:
 
                 cost_current = r.actual_travel_time(ts[0]) + sum([l.get_toll(ts[i]) for i,l in enumerate(r)])
 
+                cost_traveled = cost_current
                 potential_n_swap_updated = potential_n_swap
                 for alt_route in route_set[o,d]:
                     alt_route_tts = alt_route.actual_travel_time(ts[0], return_details=True)[1]
                     cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_traveled - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
@@ -583,6 +584,7 @@ class SolverDSO_D2D:
                 private_cost = r.actual_travel_time(ts[0])
                 cost_current = private_cost+ext
 
+                cost_traveled = cost_current
                 potential_n_swap_updated = potential_n_swap
 
                 for alt_route in route_set[o,d]:
@@ -592,7 +594,7 @@ class SolverDSO_D2D:
 
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_traveled - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index e75e598..aa95f79 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -214,13 +214,14 @@ RouteSwapResult dta_route_swap_due(
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
+        double cost_traveled = cost_current;
         double potential_n_swap_delta = 0.0;
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_due(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_traveled - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
@@ -341,13 +342,14 @@ RouteSwapResult dta_route_swap_dso(
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
+        double cost_traveled = cost_current;
         double potential_n_swap_delta = 0.0;
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_dso(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_traveled - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
-- 
2.43.0


From 8d1c982a09d96833a288931b000dea95d3eb630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 35/50] fix: enumerate_k_shortest_routes with parallel links
 returned routes containing all of them at the cost of the last one

---
 uxsim/Utilities/Utilities.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..94570ba 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -79,19 +79,17 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     costs : list
         A list of costs of the routes if return_cost is True.
     """
+    #each link is inserted as an intermediate node (name, "link"), so that parallel links are distinguished
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        G.add_edge(l.start_node.name, (l.name, "link"), weight=cost_function(l))
+        G.add_edge((l.name, "link"), l.end_node.name, weight=0)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [n[0] for n in path[1::2]]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -136,19 +134,17 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     costs : list
         A list of costs of the routes if return_cost is True.
     """
+    #each link is inserted as an intermediate node (name, "link"), so that parallel links are distinguished
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        G.add_edge(l.start_node.name, (l.name, "link"), weight=cost_function(l, t))
+        G.add_edge((l.name, "link"), l.end_node.name, weight=0)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [n[0] for n in path[1::2]]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
-- 
2.43.0


From 1ec2de24e26e0ba4c13764f23b99305962dbab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 36/50] fix: enumerate_k_random_routes includes the free-flow
 shortest route when there are parallel links

---
 uxsim/Utilities/Utilities.py | 16 ++++++++++------
 uxsim/trafficpp/traffi.cpp   | 20 +++++++++++---------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 94570ba..34eedbe 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -188,11 +188,16 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
     average_n_routes_old = 0
     while 1:
         G = nx.DiGraph()
+        node_pair_link = dict()
         for l in W.LINKS:
-            if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
-            else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+            weight = l.length/l.u
+            if iteration > 0:
+                weight *= random.uniform(0,100)
+            #the best one among parallel links
+            i, j = l.start_node.name, l.end_node.name
+            if (i, j) not in node_pair_link or weight < G[i][j]["weight"]:
+                G.add_edge(i, j, weight=weight)
+                node_pair_link[i, j] = l
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
@@ -200,8 +205,7 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
+                        l = node_pair_link[paths[source][dest][i], paths[source][dest][i+1]]
                         path.append(l.name)
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 42ef9be..173d816 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1390,11 +1390,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (the best one among parallel links in each iteration, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1410,14 +1407,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto ln : links){
+            node_pair_link[ln->start_node->id][ln->end_node->id] = -1;
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From 648da7d57a3510529ad4bdea68762606d1947984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 37/50] fix:
 get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t uses the
 last route update not after t and returns its time

---
 uxsim/Utilities/Utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 34eedbe..55fc69f 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -316,10 +316,11 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
     """
     if t >= W.TMAX:
         t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    dist_record = W.ROUTECHOICE.dist_record
+    duo_timestep = max(timestep for timestep in dist_record if timestep*W.DELTAT <= t)
+    duo_t = duo_timestep*W.DELTAT
 
-    distances = W.ROUTECHOICE.dist_record[duo_timestep]
+    distances = dist_record[duo_timestep]
 
     if return_matrix == True:
         ret = distances
-- 
2.43.0


From bf6ef0af3327f371213d18e54fc4959d6d63b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 38/50] fix: OSM post-processing must not delete the node of a
 self-loop link

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..b19517d 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -223,7 +223,7 @@ class OSMImporter:
                 link_length = distance(start_pos, end_pos)
                 #print(link_length, link[0], start_node, end_node)
 
-                if link_length <= node_merge_threshold:
+                if link_length <= node_merge_threshold and start_node != end_node:
                     #縮約先に登録されていなければ登録
                     if end_node not in delete_node_map.values() and start_node not in delete_node_map.keys():
                         delete_node_map[end_node] = start_node
-- 
2.43.0


From 2a52f4a56a0b3565348309d528280c26b931b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 39/50] fix: OSMImporter applies the default number of lanes
 and speed of motorways

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index b19517d..f3a5e7f 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 45502ed2a7ac6e8c5e4f63da923008e32b8ca0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 40/50] fix: OSMImporter2 estimates an unknown road type from
 the downstream links too

---
 uxsim/OSMImporter2/OSMImporter2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..487d4ed 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -245,7 +245,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
-                to_node = links.at[i, "from_node"]
+                to_node = links.at[i, "to_node"]
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-- 
2.43.0


From 0f93a5ec70126d88c5624bb3c577f22b7451d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 41/50] fix: OSMImporter's minimum of one lane also applies to
 tagged lane numbers

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index f3a5e7f..c613fcf 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -141,8 +141,8 @@ class OSMImporter:
                             lanes = default_number_of_lanes_others
                     except:
                         lanes = default_number_of_lanes_others
-                    if lanes < 1:
-                        lanes = 1
+                if lanes < 1:
+                    lanes = 1
                 try:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
-- 
2.43.0


From 0d527cb5a7745453e069ca306991af425ca41f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 42/50] fix: the random taxi assignment draws from a generator
 of its own

TaxiHandler seeded and used Python's global random module, so that the
assignment of a simulation with a fixed seed depended on whatever else in
the process draws random numbers (e.g. a second simulation run alternately
with it), creating a handler reseeded the user's own random numbers, and a
copied world did not continue like the original.
---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index d155f23..ea6db7b 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -86,7 +86,7 @@ class TaxiHandler:
         s.trip_requests = []
         s.trip_requests_all = []
         s.W = W
-        random.seed(s.W.random_seed)
+        s.rng = random.Random(s.W.random_seed)
 
     def add_trip_request(s, orig, dest, depart_time, name=None, attribute=None):
         """
@@ -225,7 +225,7 @@ class TaxiHandler_random(TaxiHandler):
         Assigns trip request to random available taxi.
         """
         vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
-        random.shuffle(vacant_taxis)
+        s.rng.shuffle(vacant_taxis)
         for trip_request in s.trip_requests[:]:
             if len(vacant_taxis) == 0:
                 break
-- 
2.43.0


From 7e422c5f1ca5510c853f6a6aca42c08a79948ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 43/50] fix: SolverDSO_ALNS: unfinished trips are a penalty,
 not a reward

The objective is minimised, and is documented as total_travel_time +
simulation_duration*number of unfinished trips, but the second term was
subtracted: plans in which trips do not finish were preferred.
---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index df9d815..34f8d08 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1306,7 +1306,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From 8cb25d5574527d128bbd269a16a8f53fb5297816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 44/50] fix: SolverDSO_ALNS: start from the shortest route of
 the set

When the route travelled in the initial solution is not in the route set,
the shortest route of the set should be used, but the minimum was never
recorded, so that the last route was taken.
---
 uxsim/DTAsolvers/DTAsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 34f8d08..2eba916 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1245,7 +1245,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    route_tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if route_tt < route_mintt:
+                        route_mintt = route_tt
                         route_id_mintt = j
                 
                 if route_id != -1:
-- 
2.43.0


From 813de8af1dea0525783225536c5e10139d20f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 45/50] fix: SolverDSO_ALNS: initial plan within the route sets

random.randint includes its upper end.
---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 2eba916..38dfa9f 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1274,7 +1274,7 @@ class SolverDSO_ALNS:
                 actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
                 xx_domain.append([i for i in range(actual_n_route)])
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+            xx0 = [random.randint(0, len(xx_domain[i])-1) for i in range(len(W.VEHICLES))]
 
 
         ##############################################################
-- 
2.43.0


From f5ffee9493ba381137a3006b5fcf6fc5204fa7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 46/50] fix: SolverDSO_GA returns the best plan of the last
 generation

The last world simulated was returned, whatever its objective (and usually
without dict_od_to_routes), while the reported total travel time is the best
one's.
---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 38dfa9f..6b6e67a 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1043,7 +1043,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = W_best
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 4b6faaf925e3ef1db964b16f50404f4dc994b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 47/50] fix: ALNS: congested-link operator skips links nobody
 entered

It raised ValueError when fewer links than it considers were used.
---
 uxsim/DTAsolvers/ALNS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..ed203b3 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -455,6 +455,7 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
 
+    df_l = df_l[[len(W.get_link(l).vehicles_enter_log) > 0 for l in df_l["link"]]]
     most_delayed_links = list(df_l.sort_values(by='delay_ratio', ascending=False)[:max([int(len(df_l)*delay_ranking_ratio),delay_ranking_min_n])]["link"])
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
-- 
2.43.0


From 5f04e1351b46a344986e1fd3250d7e2ee3a85c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 48/50] fix: SolverDSO_ALNS: all vehicles departing at time 0

The departure times were divided by their maximum, 0, so that the selection
probabilities became NaN.
---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 6b6e67a..06a1288 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1217,7 +1217,7 @@ class SolverDSO_ALNS:
             dict_od_to_vehid[o,d].append(key)
             departure_times.append(veh.departure_time)
 
-        departure_times = np.array(departure_times)/max(departure_times)
+        departure_times = np.array(departure_times)/max(max(departure_times), 1)
 
         ##############################################################
         # enumerate some routes between each OD pair
-- 
2.43.0


From fc0c17b85396e3745cce1c00d86355ff12052689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 49/50] fix: area_to_pandas: vehicles remaining on a link are
 not subtracted twice

traffic_volume of link_to_pandas() is the number of vehicles that left the
link. Subtracting vehicles_remain from it gave too small, even negative,
total travel times for areas with a queue.
---
 uxsim/analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index d650259..e985dd4 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1865,8 +1865,7 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
                 average_delay = max(total_travel_time / total_free_time - 1, 0)
-- 
2.43.0


From 1d0b4f23f63246c9673d4137f35d8e94bc85170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 50/50] fix: SolverDSO_ALNS: an initial world without route
 sets is accepted

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 06a1288..78b6f30 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1202,7 +1202,6 @@ class SolverDSO_ALNS:
             #    print(W.analyzer.basic_to_pandas())
         else:
             W = initial_solution_World
-            dict_od_to_routes = W.dict_od_to_routes
             
         if k_max == None:
             k_max = max([1, int(len(W.VEHICLES)*0.01)])
@@ -1231,6 +1230,7 @@ class SolverDSO_ALNS:
         if initial_solution_World != None and hasattr(initial_solution_World, "dict_od_to_routes"):
             print("Initial solusion is used")
             routes = initial_solution_World.dict_od_to_routes
+            dict_od_to_routes = routes
             xx0 = [0 for i in range(len(W.VEHICLES))]
             n_route_found = 0
             for i,veh in enumerate(W.VEHICLES.values()):   
-- 
2.43.0

