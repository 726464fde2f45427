From b2d21acb40d79baef86bf5741292c0c052cd453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 01/53] fix: save_npy stores a copy of the data that was sent

The buffer kept references, so frames of an array that is updated in place
(e.g. agents.array) were all written with the values of the latest frame.
---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..d058fbf 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -36,7 +36,7 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        buffer.append(np.copy(data))  # caller may keep modifying data
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From f8f922429538d87c3e68ff4ede5a78a9474c3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 02/53] fix: find_npy_files matches exactly
 <basename>_<index>.npy

str.lstrip/rstrip strip sets of characters, so indices were lost when the
basename ends with digits, and files of other basenames that share a prefix
(and the <basename>.npy of concat_npy) were picked up or raised ValueError.
---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index d058fbf..6e4b1f8 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -55,11 +56,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_(\d+)\.npy')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.fullmatch(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From 47480f77245c53cf2935c298a6a8d2adb5b47ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/53] fix: geometries in JSON files are read back as they
 were saved

---
 crowddynamics/io.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 6e4b1f8..d5e6c17 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -148,11 +148,14 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom)  # Multipart geometries are also iterable
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [mapping(geo) for geo in geom]
     else:
         return mapping(geom) if geom else geom
 
@@ -160,10 +163,12 @@ def geometry_mapping(geom):
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
+    if isinstance(geom, Mapping):
+        if isinstance(geom.get('type'), str):
+            return shape(geom)  # Mapping of one geometry
         return {name: shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [shape(geo) for geo in geom]
     else:
         return shape(geom) if geom else geom
 
-- 
2.43.0


From e3010885a93ae90f2f639ea3fe80ac7d5e31e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 04/53] fix: saving geometries replaces the previous content of
 the file

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index d5e6c17..3ed1d5f 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -181,7 +181,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 1479d4f7d9b7020b4d028259d62e84a92836f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 05/53] fix: shoulders of three circle agents follow the
 position that is tried

---
 crowddynamics/simulation/agents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..be2e8db 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -653,6 +653,10 @@ class Agents(AgentsBase):
             new_agent = group.members[index]
             new_agent.position = position_gen() if callable(position_gen) \
                 else next(position_gen)
+            if isinstance(new_agent, ThreeCircle):
+                # Shoulders follow the new position
+                new_agent.position_ls = new_agent._default_position_ls()
+                new_agent.position_rs = new_agent._default_position_rs()
 
             # Overlapping check
             neighbours = self._neighbours.nearest(new_agent.position, radius=1)
-- 
2.43.0


From 34b076c9faa55685bef15071e6b33f8416a343cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 06/53] fix: rows of agents that did not fit are removed

---
 crowddynamics/simulation/agents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index be2e8db..b6a08d8 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -676,9 +676,9 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
+        # Remove agents that didn't fit from self.array
+        if self.index < self.array.size:
+            self.array = self.array[:self.index]
 
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From 2ce322f16dc83410aeb2c88c96a7dcd6f0544cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 07/53] fix: attributes of an agent group are consumed once

---
 crowddynamics/simulation/agents.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index b6a08d8..5a12247 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -589,8 +589,15 @@ class AgentGroup(HasTraits):
         Instance(AgentType),
         help='')
 
+    _settings = None  # Settings used for creating the current members
+
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        settings = (self.size, self.agent_type, self.attributes)
+        if self._settings is not None and all(
+                a is b for a, b in zip(settings, self._settings)):
+            return  # Several settings were set at once
+        self._settings = settings
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From f9349dc26091a95f92f04fa42c96480aacdf15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 08/53] fix: an agent group without agent type builds no
 members

---
 crowddynamics/simulation/agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 5a12247..2d2d8f6 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -574,7 +574,8 @@ class AgentGroup(HasTraits):
 
     """
     agent_type = Type(
-        AgentType,
+        default_value=None,
+        klass=AgentType,
         allow_none=True,
         help='AgentType for generating agent from attributes.')
     size = Int(
-- 
2.43.0


From 2d14dd2ad0f48fbd3b137e27d4df027b7b19e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 09/53] fix: moment arm of the second three circle agent starts
 from its own parts

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 6a4bf171fee0c9aace2b0fdff9affd0e526662f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 10/53] fix: time to collision of three circle agents is the
 smallest positive one

---
 crowddynamics/core/motion/power_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..d651e91 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,7 +321,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From 1512f523b09b6b53a3023ef9dc190f7a87a97656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 11/53] fix: social force of three circle agents follows the
 gradient of the time to collision

---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index d651e91..1760320 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +334,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 8c8e3c0f00868910dd1bbbd5994f05ca54dbeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 12/53] fix: euler integrator rotates every three circle agent

---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From 8c732d2b69679ffbb621567c35ed7bb5a682500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 13/53] fix: an agent walking straight towards another one is
 not heading away

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From cf56c407f3f24d00455cf09d579ac1216f391a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 14/53] fix: herding with zero nearest neighbours is allowed
 and must not fail

---
 crowddynamics/core/steering/collective_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index f6fcd6b..a2d63ef 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -88,6 +88,9 @@ def find_nearest_neighbors(
         size, fill_value=sight, dtype=np.float64)
     '''Distance to furthest neighbor.'''
 
+    if size_nearest_other == 0:
+        return neighbors
+
     for i, j in iter_nearest_neighbors(
             cell_indices, neigh_cells, points_indices, cells_count,
             cells_offset):
-- 
2.43.0


From d02d395091663c3e1d98de7b1cb78c03ee072047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 15/53] fix: obstacle_handling_continuous uses both components
 and skips points off the mesh

---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..b4e721f 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From beddba61c99c20877829b6f335a9dca617f68a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 16/53] fix: agents keep their direction where the direction
 map is not defined

---
 crowddynamics/core/steering/navigation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..67c0e2e 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -73,6 +73,8 @@ def getdefault(indices, dir_map, defaults):
     for k in range(len(indices)):
         i, j = indices[k]
         if is_inside((i, j), (0, 0), x.shape):
-            out[k][0] = x[i, j]
-            out[k][1] = y[i, j]
+            # Direction is not defined where gradient of distance is zero
+            if not (np.isnan(x[i, j]) or np.isnan(y[i, j])):
+                out[k][0] = x[i, j]
+                out[k][1] = y[i, j]
     return out
-- 
2.43.0


From 187ead773111941622935a4ff61d9e6c76c88b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 17/53] fix: navigation works in fields without obstacles

---
 crowddynamics/core/steering/navigation.py    | 3 +++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 67c0e2e..8f65fe2 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,9 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
+
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..5b67245 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..35837c4 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -158,6 +158,9 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
+
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From 81c5cae26348bd209774b6825804e94783e56838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 18/53] fix: discretizations of a field follow its geometries

---
 crowddynamics/simulation/field.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 35837c4..c6009b2 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 import numpy as np
 from shapely.geometry import Polygon
 from shapely.geometry.base import BaseGeometry
-from traitlets import Instance, List, validate
+from traitlets import Instance, List, observe, validate
 
 from crowddynamics.core.geometry import union
 from crowddynamics.core.sampling import polygon_sample
@@ -84,7 +84,6 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
     @validate('domain')
@@ -105,6 +104,14 @@ class Field(FieldBase):
             raise ValidationError('{} should not empty'.format(value))
         return value
 
+    @observe('domain', 'obstacles', 'targets')
+    def _clear_caches(self, change):
+        """Meshes and maps of the previous geometries are not valid anymore."""
+        self.meshgrid.cache_clear()
+        self.shortest_path_target.cache_clear()
+        self.direction_map_obstacles.cache_clear()
+        self.navigation_to_target.cache_clear()
+
     def convex_hull(self):
         """Convex hull of union of all objects in the field."""
         field = BaseGeometry()
-- 
2.43.0


From 6e68f12238dfd5609b0a3c761d4d4602486be7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 19/53] fix: linestring_length_cumsum is a cumulative sum

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..a80983a 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -10,10 +10,12 @@ from crowddynamics.core.geom2D import polygon_area
 @numba.jit(f8[:](f8[:, :]), nopython=True, nogil=True, cache=True)
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
+    length = 0.0
     cumsum = np.zeros(n)
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        length += np.hypot(diff[0], diff[1])
+        cumsum[i] = length
     return cumsum
 
 
-- 
2.43.0


From 6a2df5e5c04d3f0b4dd94f5aaa1eea7e822b7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 20/53] fix: TargetReached failed for polygon targets, its name
 template has a named field

---
 crowddynamics/simulation/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..7bcd6de 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
-- 
2.43.0


From 260d76797b66a58e229d0b86c28185bea07c4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 21/53] fix: TargetReached looked for whole agent records
 instead of positions inside targets

---
 crowddynamics/simulation/logic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 7bcd6de..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 3a3a81e33ed9c78b5997e9c5416a64ff26366002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 22/53] fix: TargetReached failed when agents were added after
 it was created

---
 crowddynamics/simulation/logic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 4075be4..c6c07ac 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -382,7 +382,10 @@ class TargetReached(LogicNode):
 
     def update(self):
         # TODO: update target reached
-        for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(
-                self.simulation.agents.array['position'])
+        positions = self.simulation.agents.array['position']
+        for i, (name, path) in enumerate(zip(self.names, self.paths)):
+            # Agents may have been added since the last update
+            reached_by = path.contains_points(positions)
+            reached_by[:self.reached_by[i].size] |= self.reached_by[i]
+            self.reached_by[i] = reached_by
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From bbea1ed411daba3c0c4a60740e6f099ac0797bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 23/53] fix: geom_to_linesegment left out the walls of holes in
 polygons

---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..c973fb7 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -89,7 +89,8 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        return chain.from_iterable(
+            map(geom_to_linesegment, chain([geom.exterior], geom.interiors)))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
-- 
2.43.0


From aaf652cfda834add5bab3b469ec88711f5843187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 24/53] fix: geom_to_array failed for multipart geometries

---
 crowddynamics/core/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index c973fb7..1829510 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,7 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        yield from chain.from_iterable(map(_geom_to_array, geom))
     else:
         raise TypeError
 
-- 
2.43.0


From d9adb6a577514f8f3976d43fdd023c9d3e6d79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 25/53] fix: draw_geom erased what had been drawn inside holes
 of polygons

---
 crowddynamics/core/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 1829510..74ffc6e 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -116,14 +116,16 @@ def draw_geom(geom: BaseGeometry,
             x, y = skimage.draw.line(r0, c0, r1, c1)
             grid[y, x] = value
     elif isinstance(geom, Polygon):
+        mask = np.zeros(grid.shape, dtype=np.bool_)
         i = indicer(geom.exterior)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        mask[y, x] = True
         x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        mask[y, x] = True
         for j in map(indicer, geom.interiors):
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            mask[y, x] = False
+        grid[mask] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0


From 3c9c69deeb8cd1c53120e0f5d6112d2805dab49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 26/53] fix: density_classical failed, it used floats as
 indices and a grid that was one cell short

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From 63abcd6d33124011b1a74625775fe6b805efab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 27/53] fix: bounding_box took the number of axes of the array
 for the dimension of its points

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..f684e0d 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -45,8 +45,8 @@ def bounding_box(points):
         numpy.ndarray: Array of [[min, max], [min, max], ...] along the
             dimensions of points.
     """
-    out = np.empty((points.ndim, 2))
-    for i in range(points.ndim):
+    out = np.empty((points.shape[1], 2))
+    for i in range(points.shape[1]):
         x = points[:, i]
         out[i, 0] = x.min()
         out[i, 1] = x.max()
-- 
2.43.0


From fd3355c80c70b04a6e5323c70f910538276d84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 28/53] fix: density_voronoi_1 failed or used wrong cells for
 points of negative or different x and y coordinates

---
 crowddynamics/core/quantities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index f684e0d..03d5393 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,9 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.int64(
+        np.floor(bbox_points / cell_size))
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -221,8 +222,8 @@ def density_voronoi_1(points, cell_size):
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
         # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        for i in range(int(minx // cell_size), int(maxx // cell_size) + 1):
+            for j in range(int(miny // cell_size), int(maxy // cell_size) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From f8525ffc74bdf1ae60e9afc2589352baff655299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 29/53] fix: density_voronoi_2 looked up areas by region number
 and merged the cells around zero

---
 crowddynamics/core/quantities.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 03d5393..018e949 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -264,25 +264,24 @@ def density_voronoi_2(points, cell_size):
     # Compute areas for all of the Voronoi regions
     area = np.array([polygon_area(new_vertices[i]) for i in new_regions])
 
-    return _core_2(points, cell_size, area, vor.point_region)
+    return _core_2(points, cell_size, area)
 
 
-@numba.jit([f8[:, :](f8[:, :], f8, f8[:], i8[:])],
+@numba.jit([f8[:, :](f8[:, :], f8, f8[:])],
            nopython=True, nogil=True, cache=True)
-def _core_2(points, cell_size, area, point_region):
+def _core_2(points, cell_size, area):
     """Numerical implementation
 
     Args:
         points:
         cell_size:
-        area:
-        point_region:
+        area: Areas of the Voronoi regions in order of the points
 
     Returns:
 
     """
     # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -292,7 +291,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From cd1893ff4f4517255f1f78b58b4be68152368e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 30/53] fix: density_voronoi_1 could write outside of its grid
 through rounding

---
 crowddynamics/core/quantities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 018e949..bc7dac1 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -1,6 +1,6 @@
 import numba
 import numpy as np
-from numba import f8, i8
+from numba import f8
 from scipy.spatial import Voronoi
 from shapely.geometry.polygon import Polygon
 
@@ -221,9 +221,10 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx // cell_size), int(maxx // cell_size) + 1):
-            for j in range(int(miny // cell_size), int(maxy // cell_size) + 1):
+        i0, j0, i1, j1 = np.int64(
+            np.floor(np.array((minx, miny, maxx, maxy)) / cell_size))
+        for i in range(max(i0, imin), min(i1, imax) + 1):
+            for j in range(max(j0, jmin), min(j1, jmax) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From 1694e3180ffc93863b31837a4e2c5ebca010015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 31/53] fix: trait_to_type raised the type of Unicode traits
 instead of returning it

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 611ae4c58869530d843a3605365eaf71b607e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 32/53] fix: options of Tuple traits had no usable default

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..22ded9a 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -145,7 +145,7 @@ def trait_to_option(name, trait):
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From fb93b93b23836f96edad21d62dee658df73a347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 33/53] fix: class_traits yielded overridden traits again

---
 crowddynamics/traits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 22ded9a..06f4ec2 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -191,10 +191,14 @@ def class_traits(cls, exclude_attrs=None, exclude_cls=None):
         >>> # excludes private attributes
         >>> class_traits(cls, exclude_attrs=lambda name: name.startswith('_'))
     """
+    names = set()
     for c in inspect.getmro(cls):
         if callable(exclude_cls) and exclude_cls(c):
             continue
-        yield from class_own_traits(c, exclude_attrs)
+        for name, trait in class_own_traits(c, exclude_attrs):
+            if name not in names:  # Not overridden by a subclass
+                names.add(name)
+                yield name, trait
 
 
 def class_to_struct_dtype(cls, exclude_attrs, exclude_cls):
-- 
2.43.0


From 6d92c983da93cefc201aa852780f5f4cf473a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 34/53] fix: import_simulations looked for the modules of other
 directories in the current one

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..6b69728 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From 891620f155bbb4eeacc7bd5b75089ca0f5fb3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 35/53] fix: every simulation command ran the last simulation
 and failed when it had options

---
 crowddynamics/cli.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 6b69728..25795b6 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -71,6 +71,15 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_callback(simulation_cls):
+    """Callback that runs the simulation with the given options"""
+
+    def callback(**options):
+        simulation_cls(**options).run()
+
+    return callback
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -78,7 +87,7 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name, callback=simulation_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From 487a0ce46c5fa46c5eee99db29cab95530455a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 36/53] fix: the --num option of run was ignored

---
 crowddynamics/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 25795b6..a0a28fe 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -74,8 +74,10 @@ def run(context, loglevel, num):
 def simulation_callback(simulation_cls):
     """Callback that runs the simulation with the given options"""
 
-    def callback(**options):
-        simulation_cls(**options).run()
+    @click.pass_obj
+    def callback(obj, **options):
+        for _ in range(obj['num']):
+            simulation_cls(**options).run()
 
     return callback
 
-- 
2.43.0


From f7b5860e1d08ae2e5dffb6a195030f471511e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 37/53] fix: the crowddynamics console script had no simulation
 commands

---
 crowddynamics/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index a0a28fe..4316022 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -35,8 +35,10 @@ def import_simulations(dir_path='.'):
 @click.group(help="CrowdDynamics {version}. A tool for building and running "
                   "crowd simulations.".format(version=__version__))
 @click.version_option(__version__)
-def main():
-    pass
+@click.pass_context
+def main(context):
+    if context.invoked_subcommand == 'run':
+        simulation_commands()
 
 
 @main.command('list')
@@ -100,5 +102,4 @@ def simulation_commands():
 
 
 if __name__ == "__main__":
-    simulation_commands()
     main()
-- 
2.43.0


From 3c219967c633511ba9c55340beb77f9fc228bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 38/53] fix: the help of run and messages on wrong log levels
 failed

---
 crowddynamics/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 4316022..44bbda2 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -61,8 +61,9 @@ def concat_npy(directory, basename):
 
 
 @main.group(chain=True)
-@click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+@click.option('--loglevel',
+              type=click.Choice([l for l in LOGLEVELS if isinstance(l, str)]),
+              default='INFO',
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
-- 
2.43.0


From e3f70cac1e75dd7467290ead631be18f073958c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 39/53] fix: setup_logging ignored the log level

---
 crowddynamics/logging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crowddynamics/logging.py b/crowddynamics/logging.py
index cf3aa2d..9a4ebc5 100644
--- a/crowddynamics/logging.py
+++ b/crowddynamics/logging.py
@@ -51,6 +51,7 @@ def user_info():
 
 def setup_logging(loglevel=logging.INFO, log_cfg=LOG_CFG):
     loggingtools.setup_logging(log_cfg, '.logs')
+    logging.getLogger('crowddynamics').setLevel(loglevel)
     format_numpy()
     format_pandas()
     user_info()
-- 
2.43.0


From f3c416679aaf3be0ea929f61731a5bd4f76d830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 40/53] fix: options of Enum traits gave strings which the
 trait does not accept

---
 crowddynamics/traits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 06f4ec2..6dcabed 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -142,7 +142,9 @@ def trait_to_option(name, trait):
             # FIXME: trait.values should be strings
             return click.Option(param_decls=('--' + name,),
                                 default=str(trait.default_value),
-                                type=click.Choice(list(map(str, trait.values))))
+                                type=click.Choice(list(map(str, trait.values))),
+                                callback=lambda ctx, param, value: {
+                                    str(v): v for v in trait.values}[value])
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
                                 default=trait.make_dynamic_default(),
-- 
2.43.0


From 2f44b922cd13d90e84133e2266dafdff4a64fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 41/53] fix: options did not keep the case of the names of
 their traits

---
 crowddynamics/traits.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 6dcabed..d0d0ca6 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -119,34 +119,34 @@ def trait_to_dtype(name, trait):
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=click.IntRange(trait.min, trait.max))
         elif isinstance(trait, Float):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=float)
         elif isinstance(trait, Complex):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=complex)
         elif isinstance(trait, Bool):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 is_flag=True)
         elif isinstance(trait, Unicode):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
             # FIXME: trait.values should be strings
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=str(trait.default_value),
                                 type=click.Choice(list(map(str, trait.values))),
                                 callback=lambda ctx, param, value: {
                                     str(v): v for v in trait.values}[value])
         elif isinstance(trait, Tuple):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
-- 
2.43.0


From 059a8780c8df38298a841b4624e5b9c82d350cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 42/53] fix: load_config accepted configurations of which only
 some values were valid

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 392acd02ef4219b926b50361049256afc7765dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 43/53] fix: calling a deprecated function failed

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From e5a244d8b54938e8873abfd8faba67737c8552c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 44/53] fix: missing default values of arguments were not
 noticed by parse_signature

---
 crowddynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/utils.py b/crowddynamics/utils.py
index aaa6174..b5aa55d 100644
--- a/crowddynamics/utils.py
+++ b/crowddynamics/utils.py
@@ -63,7 +63,7 @@ def empty_to_none(value):
 
 
 def mkspec(parameter):
-    if isinstance(parameter.default, inspect.Parameter.empty):
+    if parameter.default is inspect.Parameter.empty:
         raise InvalidType('Default argument should not be empty.')
     return ArgSpec(name=parameter.name,
                    default=empty_to_none(parameter.default),
-- 
2.43.0


From 91e045f44c61155a27670d1ce0f14ab9e532acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 45/53] fix: import_simulation_callables failed for
 configurations in the current directory

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index c9cea89..ba31e7e 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -41,7 +41,7 @@ def import_simulation_callables(confpath):
         (str, typing.Callable[[...], MultiAgentSimulation]):
     """
     logger = logging.getLogger(__name__)
-    base, _ = os.path.split(confpath)
+    base, _ = os.path.split(os.path.abspath(confpath))
     config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
-- 
2.43.0


From 4d6146072ed05b8e0fd194c447531ba277659e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 46/53] fix: import_simulation_callables left the working
 directory changed between its items

---
 crowddynamics/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index ba31e7e..985ab98 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -55,9 +55,11 @@ def import_simulation_callables(confpath):
                         module = importlib.util.module_from_spec(spec)
                         spec.loader.exec_module(module)
 
-                        try:
-                            yield funcname, getattr(module, funcname)
-                        except AttributeError as e:
-                            logger.warning(e)
+                    try:
+                        function = getattr(module, funcname)
+                    except AttributeError as e:
+                        logger.warning(e)
+                    else:
+                        yield funcname, function
                 except ImportError as e:
                     logger.warning(e)
-- 
2.43.0


From 4b475bea5cb4a0012f31c80e9f14bda21f35bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:19 +0000
Subject: [PATCH 47/53] fix: density_voronoi_1 failed or lost agents of nearly
 collinear crowds

---
 crowddynamics/core/quantities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index bc7dac1..6330761 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -207,7 +207,11 @@ def density_voronoi_1(points, cell_size):
 
     # Voronoi tesselation
     vor = Voronoi(points)
-    new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
+    # Unbounded regions have to cover their part of the observation area also
+    # when the vertices of the diagram are far away from the points
+    extent = np.abs(vor.vertices - points.mean(axis=0)).max()
+    new_regions, new_vertices = voronoi_finite_polygons_2d(
+        vor, radius=1000 * (np.ptp(points) + extent))
 
     # Density matrix
     (imin, imax), (jmin, jmax) = np.int64(
-- 
2.43.0


From d505b330eec9a5873324d80672bab26424d39619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 48/53] fix: distance_circle_line gave no number for a normal
 at the end of a wall

---
 crowddynamics/core/distance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 1b6c634..589b2ec 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -10,7 +10,7 @@ import numba
 import numpy as np
 from numba import float64
 from numba.types import Tuple, UniTuple
-from crowddynamics.core.vector2D import length, rotate90, dot
+from crowddynamics.core.vector2D import length, rotate90, dot, normalize
 
 
 @numba.jit([Tuple((float64, float64[:]))(float64[:], float64,
@@ -132,10 +132,10 @@ def distance_circle_line(x, r, p0, p1):
 
     if l_t > l_w:
         d_iw = length(q0)
-        n_iw = q0 / d_iw
+        n_iw = normalize(q0)
     elif l_t < -l_w:
         d_iw = length(q1)
-        n_iw = q1 / d_iw
+        n_iw = normalize(q1)
     else:
         l_n = dot(n_w, q0)
         d_iw = np.abs(l_n)
-- 
2.43.0


From ed2543e38c67da0136168181bba66ffa3e01b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 49/53] fix: the domain of PillarInTheMiddle did not contain
 its pillar

---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index 1f30b9a..c578972 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(self.width / 2, self.height / 2,
-                           self.width / 2, self.height / 2)
+        domain = rectangle(-self.width / 2, -self.height / 2,
+                           self.width, self.height)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From 6ae9e16955ea66c66e194fa4b26a90d2ac0cd207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 50/53] fix: the picture of a distance map was as wide and high
 as its upper right corner

The last two arguments of image are a width and a height: maps of domains that
do not begin at the origin were drawn with another size than their domain.
---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 1dcbc94..59d6ef4 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -139,7 +139,7 @@ def add_distance_map(fig, mgrid, distance_map, **kwargs):
     """
     kwargs.setdefault('palette', 'Greys256')
     minx, miny, maxx, maxy = mgrid.bounds
-    fig.image([distance_map], minx, miny, maxx, maxy, **kwargs)
+    fig.image([distance_map], minx, miny, maxx - minx, maxy - miny, **kwargs)
 
 
 def add_direction_map(fig: Figure, mgrid, direction_map, freq=2, **kwargs):
-- 
2.43.0


From 1e2f291b34e4260c45fbd252783be7ff8d61aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 51/53] fix: a field without obstacles or domain could not be
 drawn

---
 crowddynamics/visualizations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 59d6ef4..a86b7b2 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -115,7 +115,8 @@ def add_field(fig, field):
     """
 
     # Plot spawn and target indices
-    add_geom(fig, field.domain, alpha=0.05)
+    if field.domain is not None:
+        add_geom(fig, field.domain, alpha=0.05)
 
     for spawn in field.spawns:
         add_geom(fig, spawn, alpha=0.5, line_width=0, color='green')
@@ -123,7 +124,8 @@ def add_field(fig, field):
     for target in field.targets:
         add_geom(fig, target, alpha=0.5, line_dash='dashed', color='olive')
 
-    add_geom(fig, field.obstacles, alpha=0.8)
+    if field.obstacles is not None:
+        add_geom(fig, field.obstacles, alpha=0.8)
 
 
 def add_distance_map(fig, mgrid, distance_map, **kwargs):
@@ -214,10 +216,11 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
                  line_dash='dashed',
                  color='olive',)
 
-    add_geom(p, field.obstacles,
-             legend='obstacles',
-             line_width=3.0,
-             alpha=0.8, )
+    if field.obstacles is not None:
+        add_geom(p, field.obstacles,
+                 legend='obstacles',
+                 line_width=3.0,
+                 alpha=0.8, )
 
     p.legend.location = "top_left"
     p.legend.click_policy = "hide"
-- 
2.43.0


From da2e07eb4feb96e7b133b157d1d90d598916733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:11 +0000
Subject: [PATCH 52/53] Revert the change of the example field
 PillarInTheMiddle: examples stay as they are

---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index c578972..1f30b9a 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(-self.width / 2, -self.height / 2,
-                           self.width, self.height)
+        domain = rectangle(self.width / 2, self.height / 2,
+                           self.width / 2, self.height / 2)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From b29fbbe9e341f3d67900cfe1cb9d8066e619bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 53/53] fix: save_npy takes directories and basenames with
 braces

---
 crowddynamics/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 3ed1d5f..8673dee 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -32,7 +32,7 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
+    filepath = os.path.join(directory, basename)
     buffer = []
     index = 0
     while True:
@@ -41,7 +41,7 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            np.save('{}_{}.npy'.format(filepath, index), np.vstack(buffer))
             buffer.clear()
             index += 1
 
-- 
2.43.0

