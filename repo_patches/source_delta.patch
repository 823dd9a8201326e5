From 4d0dfae848dc9bc320c28485e129df58d9b8156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 01/59] fix: do not broadcast the first microphone sample over
 the time before 0

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From 6c31b10d6c28ef34ed6446fccc3abca0597a4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 02/59] fix: give each simulator its own copy of the
 configuration

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..e66f7eb 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -181,27 +181,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From 62d364a1e4f022916f1033787aa493e8fbf716f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 03/59] fix: set the global room acoustics constants each time
 paths are generated

---
 src/aspsim/room/roomimpulseresponse.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..ae1d22d 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -74,9 +74,6 @@ class PathGenerator:
             The simulation info object
         
         """
-        pra.constants.set("c", sim_info.c)
-
-        room_center = np.array(sim_info.room_center)
         room_size = np.array(sim_info.room_size)
 
         rt60 = sim_info.rt60
@@ -93,12 +90,10 @@ class PathGenerator:
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-        frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
-        pra.constants.set("frac_delay_length",frac_dly_len)
+        self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
-        if frac_dly_len < 20:
-            print("WARNING: fractional delay length: ",frac_dly_len)
-
+        if self.frac_dly_len < 20:
+            print("WARNING: fractional delay length: ",self.frac_dly_len)
 
 
     def create_path (self, src, mic, reverb, sim_info, return_path_info=False, verbose=False):
@@ -130,6 +125,10 @@ class PathGenerator:
         elif reverb == "random":
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
+            # The constants are global to pyroomacoustics, so they must be set each time
+            # in case another simulator has changed them
+            pra.constants.set("c", sim_info.c)
+            pra.constants.set("frac_delay_length", self.frac_dly_len)
             if sim_info.spatial_dims == 3:
                 path = ir_room_image_source_3d(
                         src.pos, 
-- 
2.43.0


From 4e4fbd740542b32cdbef03ade4240e5763ab705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 04/59] fix: allow arrays without elements when path parameters
 are calculated

---
 src/aspsim/room/roomimpulseresponse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ae1d22d..056f212 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -86,7 +86,8 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
-            shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
+            if src.num > 0 and mic.num > 0:
+                shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-- 
2.43.0


From 92fb0db9e500a009101581b7579fc0b4c85c7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 05/59] fix: allow moving microphones without any source

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..d833a4b 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -306,7 +306,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[self.names_src[-1]][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 32b63655fb206abceb6003235d9bde2dfef8a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 06/59] fix: keep user-supplied paths when an array is moving
 instead of crashing

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index d833a4b..4690658 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -272,7 +272,8 @@ class ArrayCollection():
             The microphone array
         """
         reverb = self.path_type[src.name][mic.name]
-        assert reverb != "modified"
+        if reverb == "modified" or src.num == 0 or mic.num == 0:
+            return # paths set by the user and paths of empty arrays are never recalculated
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
     def update(self, glob_idx):
-- 
2.43.0


From e56d4cdfe16288c2d455a7d8e9a4853b1a30ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 07/59] fix: only match a saved session with the same kind of
 arrays and shape of paths

---
 src/aspsim/array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 4690658..2ee5fbd 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -448,10 +448,16 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
+        if ar.dynamic != initialized[ar_name].dynamic:
+            return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
+            if prototype.paths[src.name][mic.name].shape != initialized.paths[src.name][mic.name].shape:
+                return False
             if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
-- 
2.43.0


From 13cf535b0acdcb3131308440d40c9693e70d8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 08/59] fix: use the current configuration and arrays together
 with the paths of a loaded session

---
 src/aspsim/array.py           | 14 ++++++++++++--
 src/aspsim/saveloadsession.py | 12 ++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2ee5fbd..d1d90e3 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -242,8 +242,7 @@ class ArrayCollection():
             The simulation info object
         """
         metadata = {}
-        self.sim_info = sim_info
-        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        self.setup_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
             self.path_info[f"{src.name}->{mic.name}"] = {}
@@ -261,6 +260,17 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def setup_path_generator(self, sim_info):
+        """Prepares for generating paths with the given configuration
+        
+        Parameters
+        ----------
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..8b6391a 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -24,10 +24,14 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    # Only the paths are taken from the session. Everything else, such as the sources, trajectories 
+    # and how often they are updated should be as chosen for the current simulation.
+    for src, mic in chosen_arrays.mic_src_combos():
+        if chosen_arrays.path_type[src.name][mic.name] != "modified":
+            chosen_arrays.paths[src.name][mic.name] = loaded_arrays.paths[src.name][mic.name]
+    chosen_arrays.path_info = loaded_arrays.path_info
+    chosen_arrays.setup_path_generator(chosen_sim_info)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 7557664aa79cb000722d1844b3ca7afb3497e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 09/59] fix: compare all parameters that affect the paths when
 matching a saved session

---
 src/aspsim/configutil.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..34f6adb 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,8 +63,13 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.highpass_cutoff == info2.highpass_cutoff
     
+    if any("random" in src_path_types.values() for src_path_types in path_types.values()):
+        same_audio = same_audio and \
+            info1.max_room_ir_length == info2.max_room_ir_length
+
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
             info1.room_size == info2.room_size and \
@@ -72,7 +77,6 @@ def equal_audio(info1, info2, path_types):
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 1ee5d09b1acaa4243e6238e65656e2c9f8c60bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 10/59] fix: accept the documented reverb option random when
 loading a config

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 34f6adb..ea734e2 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From 5050bf888bc492ee79dd8827249067772932c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 11/59] fix: make it possible to load a saved session from its
 path

---
 src/aspsim/array.py           |  3 +--
 src/aspsim/saveloadsession.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index d1d90e3..26f1896 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -241,7 +241,6 @@ class ArrayCollection():
         sim_info : SimInfo
             The simulation info object
         """
-        metadata = {}
         self.setup_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
@@ -258,7 +257,7 @@ class ArrayCollection():
                 self.paths[src.name][mic.name], path_info = self.path_generator.create_path(src, mic, reverb, sim_info, True, True)
                 for key, val in path_info.items():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
-        
+        return self.path_info
 
     def setup_path_generator(self, sim_info):
         """Prepares for generating paths with the given configuration
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 8b6391a..3701e91 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -37,15 +37,21 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
     loaded_sim_info = configutil.load_from_file(session_path_to_load)
 
+    # Paths which change over time must be generated during the simulation
+    for src, mic in loaded_arrays.mic_src_combos():
+        if (src.dynamic or mic.dynamic) and loaded_arrays.path_type[src.name][mic.name] != "modified":
+            del loaded_arrays.paths[src.name][mic.name]
+
     if new_folder_path is not None:
         copy_sim_metadata(session_path_to_load, new_folder_path)
         loaded_sim_info.save_to_file(new_folder_path)
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists():
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From c00dbd5a22f5db7ecd601fb39462d9b88498e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 12/59] fix: accept paths given as strings, as documented

---
 src/aspsim/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index e66f7eb..33da229 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -43,10 +44,10 @@ class SimulatorSetup:
         if config_path is None:
             self.sim_info = configutil.load_default_config()
         else:
-            self.sim_info = configutil.load_from_file(config_path)
+            self.sim_info = configutil.load_from_file(Path(config_path))
 
-        self.base_fig_path = base_fig_path
-        self.session_folder = session_folder
+        self.base_fig_path = None if base_fig_path is None else Path(base_fig_path)
+        self.session_folder = None if session_folder is None else Path(session_folder)
 
         if rng is None:
             self.rng = np.random.default_rng()
@@ -161,7 +162,7 @@ class SimulatorSetup:
         session_path : str or Path from pathlib
         """
         self.folder_path = self._create_fig_folder(self.base_fig_path)
-        self.sim_info, self.arrays = sess.load_from_path(session_path, self.folder_path)
+        self.sim_info, self.arrays = sess.load_from_path(Path(session_path), self.folder_path)
 
     def create_simulator(self):
         """Creates and returns a simulator object from the current setup.
-- 
2.43.0


From 212766c4287f7e67829c663c464798b658fde75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 13/59] fix: never load a session whose save was interrupted

---
 src/aspsim/saveloadsession.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 3701e91..07e07b7 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -1,5 +1,6 @@
 import shutil
 import json
+import uuid
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -7,14 +8,27 @@ import aspsim.array as ar
 
 
 
-def save_session(session_folder, sim_info, arrays, sim_metadata=None, extraprefix=""):
-    session_path = futil.get_unique_folder_name("session_" + extraprefix, session_folder)
+UNFINISHED_PREFIX = ".unfinished_session_"
 
-    session_path.mkdir()
-    arrays.save_to_file(session_path)
-    sim_info.save_to_file(session_path)
+def save_session(session_folder, sim_info, arrays, sim_metadata=None, extraprefix=""):
+    # The session is only given its real name once it is complete, so that an 
+    # interrupted save is never mistaken for a session that can be loaded
+    unfinished_path = session_folder.joinpath(UNFINISHED_PREFIX + uuid.uuid4().hex)
+    unfinished_path.mkdir()
+    arrays.save_to_file(unfinished_path)
+    sim_info.save_to_file(unfinished_path)
     if sim_metadata is not None:
-        add_to_sim_metadata(session_path, sim_metadata)
+        add_to_sim_metadata(unfinished_path, sim_metadata)
+
+    finished = False
+    while not finished:
+        session_path = futil.get_unique_folder_name("session_" + extraprefix, session_folder)
+        try:
+            unfinished_path.rename(session_path)
+            finished = True
+        except OSError:
+            if not session_path.exists():
+                raise
 
 def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays):
     """sessionsPath refers to the folder where all sessions reside 
@@ -56,9 +70,14 @@ def copy_sim_metadata(from_folder, to_folder):
 
 class MatchingSessionNotFoundError(ValueError): pass
 
+def is_complete_session(path):
+    return not path.name.startswith(UNFINISHED_PREFIX) and \
+        path.joinpath("config.yaml").is_file() and \
+        path.joinpath("arrays.pickle").is_file()
+
 def search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays):
     for dir_path in sessions_path.iterdir():
-        if dir_path.is_dir():
+        if is_complete_session(dir_path):
             loaded_sim_info = configutil.load_from_file(dir_path)
             loaded_arrays = ar.load_arrays(dir_path)
 
-- 
2.43.0


From 2b67a8350e500f5d903e55dd149cba6fb6b12101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 14/59] fix: let simulations started at the same time create
 their own figure folders

---
 src/aspsim/fileutilities.py | 10 ++++++++++
 src/aspsim/simulator.py     |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..4ffe74e 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -38,6 +38,16 @@ def get_unique_folder_name(prefix, parent_folder, detailed_naming=False):
     return folder_name
 
 
+def create_unique_folder(prefix, parent_folder, detailed_naming=False):
+    while True:
+        folder_name = get_unique_folder_name(prefix, parent_folder, detailed_naming)
+        try:
+            folder_name.mkdir()
+            return folder_name
+        except FileExistsError:
+            pass # another process took the name first
+
+
 def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     start_path = get_unique_folder_name(prefix, parent_folder)
     sub_folder_name = start_path.parts[-1]
diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 33da229..86297f8 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -210,8 +210,7 @@ class SimulatorSetup:
             return None
 
         if gen_subfolder:
-            folder_name = futil.get_unique_folder_name("figs_", folder_for_plots, safe_naming)
-            folder_name.mkdir()
+            folder_name = futil.create_unique_folder("figs_", folder_for_plots, safe_naming)
         else:
             folder_name = folder_for_plots
             if not folder_name.exists():
-- 
2.43.0


From 86e69f578dc2b49041c24c8d94bfc62d91f6449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 15/59] fix: do not mix up save and export frequency for
 StatePower

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..7fbb78e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From 2a959da1b4b38dfaef81e5d6d565005c334410ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 16/59] fix: keep the smoothing state of SignalPowerRatio
 between chunks

---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7fbb78e..c0738bb 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 1eddc3b83e9be6cd76a15346064f7f87b8fa1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 17/59] fix: do not export state values recorded after the
 export index

---
 src/aspsim/diagnostics/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..7a61004 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,10 +527,8 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
+    is_above_max = time_indices >= max_idx
+    above_max_idx = np.argmax(is_above_max) if np.any(is_above_max) else len(time_indices)
 
     time_indices = time_indices[:above_max_idx]
     signal = signal[:,:above_max_idx]
-- 
2.43.0


From c86d501588a50c641a22f62696edbd86ef1aeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 18/59] fix: make SoundfieldPower usable without processor and
 with arrays in the plot

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 src/aspsim/diagnostics/plot.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index c0738bb..ba3ef81 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..c95ed1b 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -251,7 +251,7 @@ def soundfield(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
         if diag.plot_arrays is not None:
             for plot_ar in diag.plot_arrays:
-                plot_ar.plot(ax)
+                plot_ar.plot(ax, diag.sim_info)
         legend_without_duplicates(ax, "upper right")
 
     output_plot(print_method, folder, f"{name}_{time_idx}")
-- 
2.43.0


From c2d7a5031f9fb4b9dbab72cdce10f0fe1a9e57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 19/59] fix: export diagnostics at indices after the last
 recorded value

---
 src/aspsim/diagnostics/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 7a61004..2e1aa76 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -109,7 +109,10 @@ class Logger:
     def export_this_idx(self):
         diag_names = []
         for dg_name, dg in self.diagnostics.items():
-            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
+            recorded_until = dg.save_at.saved_until
+            if dg.save_at.finished(): # no more data will be recorded
+                recorded_until = max(recorded_until, self.sim_info.tot_samples)
+            if dg.next_export() <= recorded_until: # all relevant data have been saved
                 assert dg_name not in diag_names
                 diag_names.append(dg_name)
         return diag_names
@@ -207,6 +210,9 @@ class IntervalCounter:
     def upcoming(self):
         return self.start, self.end
 
+    def finished(self):
+        return np.isinf(self.start)
+
     def progress(self, progress_until):
         self.saved_until = progress_until
         self.start = progress_until
-- 
2.43.0


From fa9f2a629d429c2833d5735a72064431f429a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 20/59] fix: make the end modes zeros and raise of Sequence
 work as documented

---
 src/aspsim/signal/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..eaf117b 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -80,14 +80,15 @@ class Sequence(Source):
                 self.current_sample = (self.current_sample + block_len) % self.tot_samples
                 i += block_len
         elif self.end_mode == "zeros":
-            raise NotImplementedError
+            samples_left = min(num_samples, self.tot_samples - self.current_sample)
+            sig[:,:samples_left] = self.audio[:,self.current_sample:self.current_sample+samples_left]
+            self.current_sample += samples_left
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 23f4f152066741898c4dc7b95cf148c2c685aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 21/59] fix: make multichannel noise sources independent of the
 block size

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index eaf117b..bc601c1 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -233,7 +233,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -382,7 +382,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From 2eb6f439cf711de352994a8588acb2a1a8cf7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 22/59] fix: accept a different power for each channel of sine
 and bandlimited noise sources

---
 src/aspsim/signal/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index bc601c1..54aada4 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -124,6 +124,8 @@ class SineSource(Source):
         super().__init__(num_channels, rng)
         self.power = power
         self.amplitude = np.sqrt(2 * self.power)
+        if isinstance(self.amplitude, np.ndarray) and self.amplitude.ndim == 1:
+            self.amplitude = self.amplitude[:,None]
         # p = a^2 / 2
         # 2p = a^2
         # sqrt(2p) = a
@@ -240,6 +242,8 @@ class BandlimitedNoiseSource(Source):
     def set_power(self, newPower):
         self.power = newPower
         self.amplitude = np.sqrt(newPower / self.testSigPow)
+        if isinstance(self.amplitude, np.ndarray) and self.amplitude.ndim == 1:
+            self.amplitude = self.amplitude[:,None]
 
         # if isinstance(self.power, np.ndarray):
         #     assert self.power.ndim == 1
-- 
2.43.0


From 3ccd47e33e9187f0dcf0eed5c98cfa12710ec522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 23/59] fix: make the metadata of MultiSineSource possible to
 save

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 54aada4..9cfd934 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -193,7 +193,7 @@ class MultiSineSource(Source):
             self.metadata["power"] = self.power.tolist()
         else:
             self.metadata["power"] = self.power
-        self.metadata["frequency"] = self.freq
+        self.metadata["frequency"] = self.freq.tolist()
 
     def get_samples(self, num_samples):
         noise = np.zeros((1, num_samples))
-- 
2.43.0


From f9166ca1e0f149ac5a330696527b05bd6948d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 24/59] fix: use the start state given to MLS

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 9cfd934..e2e4c31 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -407,11 +407,11 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-        self.metadata["start state"] = self.state
+        self.metadata["start state"] = None if state is None else np.asarray(state).tolist()
 
     def get_samples(self, num_samples):
         seq, self.state = spsig.max_len_seq(
-- 
2.43.0


From 66eec2752783b1d84d7532424f192af2a4ddd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 25/59] fix: start the filter of BandlimitedNoiseSource at rest

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index e2e4c31..de1a4a8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -225,8 +225,7 @@ class BandlimitedNoiseSource(Source):
         self.testSigPow = np.mean(testSig ** 2)
         self.set_power(power)
 
-        self.zi = spsig.sosfilt_zi(self.filtCoef)
-        self.zi = np.tile(np.expand_dims(self.zi,1), (1,self.num_channels,1))
+        self.zi = np.zeros((self.filtCoef.shape[0], self.num_channels, 2))
 
         if isinstance(self.power, (np.ndarray)):
             self.metadata["power"] = self.power.tolist()
-- 
2.43.0


From f1543679c7d019e34b3e01a1eed01948a82807e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 26/59] fix: load mono audio files and use the default
 arguments of load_audio_file

---
 src/aspsim/signal/sources.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index de1a4a8..87c7eb9 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -290,22 +290,21 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
-    assert audio.ndim == 2
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
     #                            Make support for multiple channels (should be simple)")
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From 0e2feb891bf09f6dae670311d38ac9847b0f5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 27/59] fix: let the segments of a constant time trajectory
 take up the whole period

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..81c4493 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 79bb680f86d31d836d68257af4470cd10f204a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 28/59] fix: allow plotting of circular trajectories with a
 short period

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index 81c4493..9b01e64 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(1, max_samples // approx_num_points)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From 74edf1b0200dc46538769567f462fbc1f83209a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 29/59] fix: check all regions of a combined region for
 membership

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..95e0536 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.any([reg.is_in_region(coordinate) for reg in self.regions], axis=0)
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From 04a38e565a07e9e7466b8bdb101e92546383ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 30/59] fix: sample each part of a combined region in
 proportion to its volume

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 95e0536..686e5b4 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        reg_idx = np.searchsorted(sample_limit, test_val, side="right")
+        reg_idx = np.minimum(reg_idx, len(self.regions) - 1) # in case the sum of ratios is rounded below 1
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From e8095f7f4a33a743c5230f1d14b360dff4f715e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 31/59] fix: check each coordinate on its own for membership of
 planar regions

---
 src/aspsim/room/region.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 686e5b4..4e189bd 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -200,13 +200,11 @@ class Rectangle(Region):
         is_in : boolan np.ndarray of shape (N,)
             True if the coordinate is within the region, False otherwise.
         """
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
@@ -270,13 +268,11 @@ class Disc(Region):
         self.volume = self.radius**2 * np.pi
 
     def is_in_region(self, coordinates):
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
-- 
2.43.0


From 265c9128f6fbe236ff31db094a62297f9029bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 32/59] fix: keep all points of equidistant_rectangle when the
 offset is 1

---
 src/aspsim/room/generatepoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..496d766 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -182,6 +182,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     pos_on_circumference = np.linspace(0, circumference, num_points, endpoint = False)
     mic_distance = circumference / num_points
     pos_on_circumference += offset * mic_distance
+    pos_on_circumference = np.sort(np.mod(pos_on_circumference, circumference))
 
     x_extent = np.array([-side_lengths[0], side_lengths[0]]) / 2
     y_extent = np.array([-side_lengths[1], side_lengths[1]]) / 2
-- 
2.43.0


From 49b1e1da45b0bb96310948d1beb6160f38195aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 33/59] fix: use the offset angle of sunflower_pattern

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 496d766..b0b7f5e 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -296,7 +296,7 @@ def sunflower_pattern(N, radius, offset_angle=0):
     # golden ratio
     k = np.arange(1, N + 1)
     r = radius * np.sqrt(k - (1 / 2)) / np.sqrt(N - 1 / 2)
-    theta = k * 2 * np.pi / phisq
+    theta = offset_angle + k * 2 * np.pi / phisq
     [x, y] = pol2cart(r, theta)
     return np.stack((x, y)).T
 
-- 
2.43.0


From f56616b48820234bdfa28d80538c8772d01f1072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 34/59] fix: set the phase to None after all phases have
 finished

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..cb1a506 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From 6dc367caafa970494414209ae779db466d8d8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 35/59] fix: record the last sample also for small buffers
 without processors

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 86297f8..48017c8 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -287,7 +287,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(1, self.sim_info.sim_buffer // 4)
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From 59856be7e1e4070640a583493b3b9f9f26f739d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 36/59] fix: update the array metadata when the source is
 replaced

---
 src/aspsim/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 26f1896..e460aca 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -673,8 +673,6 @@ class FreeSourceArray(Array):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
 
-        self.metadata["source info"] = self.source.metadata
-    
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
         self.source.reset()
@@ -685,6 +683,7 @@ class FreeSourceArray(Array):
     def set_source(self, source):
         assert source.num_channels == self.num
         self.source = source
+        self.metadata["source info"] = self.source.metadata
 
 
 
-- 
2.43.0


From ffc09f99a59230f32d257d7b054ea88afd94994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 37/59] fix: export the spectrum of signal diagnostics

---
 src/aspsim/diagnostics/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index c95ed1b..ceb3829 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -365,9 +365,10 @@ def spectrum_plot(name, diags, time_idx, folder, preprocess, print_method="pdf")
 
     for proc_name, diag in diags.items():
         output = diag.get_processed_output(time_idx, preprocess)
-        num_channels = output.shape[0]
+        if isinstance(output, tuple): # only takes output even if time indices are provided
+            output = output[0]
         ax.plot(
-                output,
+                np.atleast_2d(output).T,
                 alpha=0.8,
                 label=proc_name,
             )
-- 
2.43.0


From d8789cae641eb1e300a3a387675919a51d7adea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 38/59] fix: record states that are matrices or tensors

---
 src/aspsim/diagnostics/core.py        | 7 +++----
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 2e1aa76..dce5c6c 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -520,14 +520,13 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
@@ -537,5 +536,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
     above_max_idx = np.argmax(is_above_max) if np.any(is_above_max) else len(time_indices)
 
     time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    signal = signal[...,:above_max_idx]
     return signal, time_indices
diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index ba3ef81..2484d80 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From 40c72cb86f60ec6377ea5c2c00a31911f9a11be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 39/59] fix: save states after exactly the blocks that are
 complete at the time index

---
 src/aspsim/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 48017c8..a703114 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -323,7 +323,8 @@ class Simulator:
         else:
             raise NotImplementedError("Multiple processors are not yet supported in the simulator.")
         
-        self.diag.save_data(proc, self.sig, self.sig.idx, self.n_tot, last_block)
+        # At this point the sample with index n_tot is processed, so n_tot+1 samples are available for the diagnostics
+        self.diag.save_data(proc, self.sig, self.sig.idx+1, self.n_tot+1, last_block)
         if last_block:
             self.sig._reset_signals()
 
-- 
2.43.0


From 816444e2062253a9d1b07bb6db3828d347085269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 40/59] fix: accept the eigenvalue indices as array

---
 src/aspsim/diagnostics/diagnosticscollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnosticscollection.py b/src/aspsim/diagnostics/diagnosticscollection.py
index 9e0c40e..cdfc42e 100644
--- a/src/aspsim/diagnostics/diagnosticscollection.py
+++ b/src/aspsim/diagnostics/diagnosticscollection.py
@@ -22,7 +22,7 @@ class EigenvaluesOverTime(diacore.StateDiagnostic):
         assert isinstance(eigval_idx, (list, tuple, np.ndarray))
         assert len(eigval_idx) == 2
         self.get_matrix = diacore.attritemgetter(matrix_name)
-        self.eigval_idx = eigval_idx
+        self.eigval_idx = tuple(eigval_idx)
         self.abs_value = abs_value
 
         self.eigvals = np.full((eigval_idx[1]-eigval_idx[0]+1, self.save_at.num_values), np.nan)
-- 
2.43.0


From d145fbcf18171b096d8c2a6c6219d9e4d8e82523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 41/59] fix: calculate the absorption with the speed of sound
 of the simulation

---
 src/aspsim/room/roomimpulseresponse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 056f212..834e870 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -78,7 +78,7 @@ class PathGenerator:
 
         rt60 = sim_info.rt60
         if rt60 > 0:
-            self.e_absorbtion, self.max_order = pra.inverse_sabine(rt60, room_size)
+            self.e_absorbtion, self.max_order = pra.inverse_sabine(rt60, room_size, c=sim_info.c)
             self.max_order += 8
         else:
             self.e_absorbtion = 0.9
-- 
2.43.0


From 2dcd1d3b5e2f9e95a711e9e4f95bf09d7344f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 42/59] fix: use a preferred pair for Gold sequences of order
 10

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 87c7eb9..e02ae48 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -425,7 +425,7 @@ class GoldSequenceSource(Source):
         7: [[4], [4, 5, 6]],
         8: [[1, 2, 3, 6, 7], [1, 2, 7]],
         9: [[5], [3, 5, 6]],
-        10: [[2, 5, 9], [3, 4, 6, 8, 9]],
+        10: [[2, 5, 9], [2, 3, 4, 8, 9]],
         11: [[9], [3, 6, 9]],
     }
 
-- 
2.43.0


From 4afec75e2c00d87cc17028085d39c755e7afd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 43/59] fix: update the array metadata when the groups are
 replaced

---
 src/aspsim/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index e460aca..2ee33ba 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -565,6 +565,7 @@ class Array(ABC):
         """
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
+        self.metadata["number of groups"] = self.num_groups
 
     def plot(self, ax, sim_info):
         if self.dynamic:
-- 
2.43.0


From d9c4fd9ba0811589b4bfda571de9d039b4842939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 44/59] fix: only count names that end in an index when looking
 for the highest numbered file

---
 src/aspsim/fileutilities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 4ffe74e..aa56aa0 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -66,21 +66,22 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
 
 def get_highest_numbered_file(folder, prefix, suffix):
     highest_file_idx = -1
+    highest_file = None
     for file_path in folder.iterdir():
         if file_path.name.startswith(prefix) and file_path.name.endswith(suffix):
             summary_idx = file_path.name[len(prefix) : len(file_path.name) - len(suffix)]
             try:
+                # int() also accepts signs, spaces and underscores, which are not part of an index
+                if not summary_idx.isdecimal():
+                    raise ValueError
                 summary_idx = int(summary_idx)
                 if summary_idx > highest_file_idx:
                     highest_file_idx = summary_idx
+                    highest_file = file_path
             except ValueError:
                 print("Warning: check prefix and suffix")
 
-    if highest_file_idx == -1:
-        return None
-    else:
-        fname = prefix + str(highest_file_idx) + suffix
-        return folder.joinpath(fname)
+    return highest_file
 
 
 def find_all_earlier_files(
-- 
2.43.0


From d059ab8e80f3088afd1972e0988fcd61b1191592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 45/59] fix: never give names that are taken when several
 unique folder names are generated

---
 src/aspsim/fileutilities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index aa56aa0..6847b70 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -57,9 +57,15 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     start_idx_len = len(sub_folder_name.split("_")[-1])
     base_name = sub_folder_name[:-start_idx_len]
 
+    # The numbers are consecutive, so start over after any name which is already taken
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(start_idx + len(folder_names)))
+        if folder_name.exists():
+            start_idx += len(folder_names) + 1
+            folder_names = []
+        else:
+            folder_names.append(folder_name)
 
     return folder_names
 
-- 
2.43.0


From a293980380391a5f45d1393728fb6aa80a320885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 46/59] fix: count all grid points of rectangular regions when
 the side is a multiple of the spacing

---
 src/aspsim/room/region.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 4e189bd..0d456c0 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -96,7 +96,8 @@ class Cuboid(Region):
         else:
             point_dist = np.array(point_dist)
 
-        num_points = np.floor(self.side_lengths / point_dist)
+        # rounded so that e.g. 0.3 / 0.1, which is slightly below 3, counts as 3
+        num_points = np.floor(np.round(self.side_lengths / point_dist, 9))
         assert min(num_points) >= 1
 
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, point_dist)]
@@ -216,7 +217,8 @@ class Rectangle(Region):
             The number of points returned is determined by the radius, height and point_spacing.
             Each row is a coordinate in 3D or 2D space.
         """
-        num_points = np.floor(self.side_lengths / self.point_spacing)
+        # rounded so that e.g. 0.3 / 0.1, which is slightly below 3, counts as 3
+        num_points = np.floor(np.round(self.side_lengths / self.point_spacing, 9))
         assert min(num_points) >= 1
 
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, self.point_spacing)]
-- 
2.43.0


From bc5b265b4be97f1e9aa75a0eb757f7806dc9ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 47/59] fix: keep all points of equidistant_rectangle however
 the circumference is rounded

---
 src/aspsim/room/generatepoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index b0b7f5e..de76dae 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -189,7 +189,8 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     fixed_side = [y_extent[1], x_extent[1], y_extent[0], x_extent[0]] #side with index i has a fixed coordinate for x or y. this is that coordinate
 
     points = np.zeros((num_points, 2))
-    breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
+    breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]), dtype=float)
+    breakpoints[-1] = np.inf # so that no point is left out however the sums are rounded
     idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
     
     points = []
-- 
2.43.0


From 81065bbf40d35f8580fa62df0ef011861484780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 48/59] fix: only take the positions of one row when sorting a
 sound field with few decimals

---
 src/aspsim/diagnostics/soundfieldplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/soundfieldplot.py b/src/aspsim/diagnostics/soundfieldplot.py
index 2287a38..26c0755 100644
--- a/src/aspsim/diagnostics/soundfieldplot.py
+++ b/src/aspsim/diagnostics/soundfieldplot.py
@@ -134,7 +134,7 @@ def sort_for_imshow(pos, sig, pos_decimals=5):
 
     sort_indices = np.zeros((num_rows, num_cols), dtype=int)
     for i, y in enumerate(unique_y):
-        row_indices = np.where(np.abs(pos[:,1] - y) < 10**(-pos_decimals))[0]
+        row_indices = np.where(pos[:,1].round(pos_decimals) == y)[0]
         row_permutation = np.argsort(pos[row_indices,0])
         sort_indices[i,:] = row_indices[row_permutation]
 
-- 
2.43.0


From f22e1b3fd0ab8ceeb3b5fe35309846fd28104136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:35 +0000
Subject: [PATCH 49/59] fix: allow keys with dots and brackets in the names of
 nested attributes

---
 src/aspsim/diagnostics/core.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index dce5c6c..aa75ffc 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from abc import abstractmethod
 
@@ -470,21 +471,20 @@ def attritemgetter(name):
     
     """
     assert name[0] != "["
-    attributes = name.replace("]", "")
-    attributes = attributes.split(".")
-    attributes = [attr.split("[") for attr in attributes]
+    # keys within brackets and apostrophes, which can have any other characters, indices within brackets, and attributes
+    parts = list(re.finditer(r"\['([^']*)'\]|\[([^\]]*)\]|([^.\[\]]+)", name))
 
     def getter (obj):
-        for sub_list in attributes:
-            obj = getattr(obj, sub_list[0])
-            for item in sub_list[1:]:
-                if item[0] == "'":
-                    if not item[-1] == "'":
-                        raise ValueError("Unmatched apostrophes")
-                    item = item.replace("'", "")
-                else:
-                    item = int(item)
-                obj = obj[item]
+        for part in parts:
+            key, item, attr = part.groups()
+            if attr is not None:
+                obj = getattr(obj, attr)
+            elif key is not None:
+                obj = obj[key]
+            else:
+                if "'" in item:
+                    raise ValueError("Unmatched apostrophes")
+                obj = obj[int(item)]
         return obj
     return getter
 
-- 
2.43.0


From 65f8d4fb26133bf5f330bf597b47dfc6bfc8e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:24 +0000
Subject: [PATCH 50/59] fix: let compare_soundfields take the signals in the
 documented form

---
 src/aspsim/diagnostics/soundfieldplot.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/aspsim/diagnostics/soundfieldplot.py b/src/aspsim/diagnostics/soundfieldplot.py
index 26c0755..f94098d 100644
--- a/src/aspsim/diagnostics/soundfieldplot.py
+++ b/src/aspsim/diagnostics/soundfieldplot.py
@@ -12,15 +12,12 @@ def compare_soundfields(pos, sig, algo_labels, row_labels, arrays_to_plot={}):
         
         The resulting plot is multiple axes, numAlgos rows high, and numAxes columns wide"""
     #num_rows, num_cols = sfp.get_num_pixels(pos)
-    pos, sig = sort_for_imshow(pos, sig)
-    if sig.ndim == 2:
-        sig = sig[None,...]
-    if sig.ndim == 3:
-        sig = sig[None,...]
-
-    num_algos = sig.shape[0]
-    num_each_algo = sig.shape[1]
-    extent = size_of_2d_plot([pos] + list(arrays_to_plot.values()))
+    sig = np.stack([np.atleast_2d(s) for s in sig], axis=0)
+    num_algos, num_each_algo, num_points = sig.shape
+    pos, sig = sort_for_imshow(pos, sig.reshape(-1, num_points).T)
+    sig = np.moveaxis(sig, -1, 0).reshape(num_algos, num_each_algo, *sig.shape[:2])
+
+    extent = size_of_2d_plot([pos] + [array.pos for array in arrays_to_plot.values()])
     extent /= np.max(extent)
     scaling = 5
 
@@ -30,7 +27,7 @@ def compare_soundfields(pos, sig, algo_labels, row_labels, arrays_to_plot={}):
     
 
 
-    for i, rows in enumerate(np.atleast_2d(axes)):
+    for i, rows in enumerate(np.reshape(axes, (num_algos, num_each_algo))):
         for j, ax in enumerate(rows):
             sf_plot(ax, pos, sig[i,j,:,:], f"{algo_labels[i]}, {row_labels[j]}", arrays_to_plot)
     
-- 
2.43.0


From 4d15f6382dd61dda1470aee4076880d2a86286e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:24 +0000
Subject: [PATCH 51/59] fix: let arrays be plotted in a sound field without a
 simulation

---
 src/aspsim/array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2ee33ba..bd0fb90 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -567,9 +567,10 @@ class Array(ABC):
         self.group_idxs = group_idxs
         self.metadata["number of groups"] = self.num_groups
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         if self.dynamic:
-            self.trajectory.plot(ax, self.plot_symbol, self.name, sim_info.tot_samples)
+            tot_samples = sim_info.tot_samples if sim_info is not None else None
+            self.trajectory.plot(ax, self.plot_symbol, self.name, tot_samples)
         else:
             ax.plot(self.pos[:,0], self.pos[:,1], self.plot_symbol, label=self.name, alpha=0.8)
 
@@ -632,7 +633,7 @@ class RegionArray(MicArray):
         self.region = region
         self.metadata["region shape"] = self.region.__class__.__name__
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         self.region.plot(ax, self.name)
         
 class ControllableSourceArray(Array):
-- 
2.43.0


From af659854f8d78569148401ae69a8c6ef7723e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 52/59] fix: show each name once in legends also if it has an
 underscore

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index ceb3829..c155516 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -193,8 +193,9 @@ def legend_without_duplicates(ax, loc):
     handles, labels = ax.get_legend_handles_labels()
     newLabels, newHandles = [], []
     for handle, label in zip(handles, labels):
+      label = label.replace("_", r"\_")
       if label not in newLabels:
-        newLabels.append(label.replace("_", "\_"))
+        newLabels.append(label)
         newHandles.append(handle)
 
     ax.legend(newHandles, newLabels, loc=loc)
-- 
2.43.0


From 60e0ea98d3169bf0049f2ae21f9ad721e750c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 53/59] fix: smooth signals without any samples

---
 src/aspsim/diagnostics/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/diagnostics/preprocessing.py b/src/aspsim/diagnostics/preprocessing.py
index 07b1636..c6c27e1 100644
--- a/src/aspsim/diagnostics/preprocessing.py
+++ b/src/aspsim/diagnostics/preprocessing.py
@@ -47,6 +47,8 @@ def clip(low_lim, high_lim):
 def smooth(smooth_len):
     ir = np.ones((1, smooth_len)) / smooth_len
     def smooth_internal(signal):
+        if signal.shape[-1] == 0:
+            return signal
         return spsig.oaconvolve(signal, ir, mode="full", axes=-1)[:,:signal.shape[-1]]
     return smooth_internal
 
-- 
2.43.0


From 6d1ce715ac0b6dd113ed14748ee79a332001bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 54/59] fix: metadata of a source state its power after
 set_power

---
 src/aspsim/signal/sources.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index e02ae48..84136c1 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -99,11 +99,6 @@ class WhiteNoiseSource(Source):
         super().__init__(num_channels, rng)
         self.set_power(power)
 
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
-
     def get_samples(self, num_samples):
         return self.rng.normal(
             loc=0, scale=self.stdDev, size=(num_samples, self.num_channels)
@@ -118,6 +113,11 @@ class WhiteNoiseSource(Source):
             assert self.power.shape[0] == self.num_channels or \
                     self.power.shape[0] == 1
 
+        if isinstance(self.power, (np.ndarray)):
+            self.metadata["power"] = self.power.tolist()
+        else:
+            self.metadata["power"] = self.power
+
 
 class SineSource(Source):
     def __init__(self, num_channels, power, freq, samplerate, rng=None):
@@ -227,10 +227,6 @@ class BandlimitedNoiseSource(Source):
 
         self.zi = np.zeros((self.filtCoef.shape[0], self.num_channels, 2))
 
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
@@ -244,6 +240,11 @@ class BandlimitedNoiseSource(Source):
         if isinstance(self.amplitude, np.ndarray) and self.amplitude.ndim == 1:
             self.amplitude = self.amplitude[:,None]
 
+        if isinstance(self.power, (np.ndarray)):
+            self.metadata["power"] = self.power.tolist()
+        else:
+            self.metadata["power"] = self.power
+
         # if isinstance(self.power, np.ndarray):
         #     assert self.power.ndim == 1
         #     assert self.power.shape[0] == self.num_channels or \
@@ -437,10 +438,6 @@ class GoldSequenceSource(Source):
         self.idx = 0
         self.set_power(power)
         
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
         self.metadata["order"] = order
         self.metadata["sequence length"] = self.seqLength
 
@@ -487,6 +484,7 @@ class GoldSequenceSource(Source):
         else:
             raise ValueError
         self.amplitude = np.sqrt(self.power)
+        self.metadata["power"] = self.power.tolist()
 
 
 
-- 
2.43.0


From 99ec49e8d61d0a80318a1aea4f831e89a57c34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 55/59] fix: measured reverberation times of all microphones in
 the metadata

---
 src/aspsim/room/roomimpulseresponse.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 834e870..5fddc2f 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -281,6 +281,7 @@ def ir_room_image_source_3d(
 
     max_trunc_error = -np.inf
     max_trunc_value = -np.inf
+    measured_rt60 = []
     max_num_ir_at_once = 500
     num_computed = 0
     while num_computed < num_to:
@@ -333,19 +334,24 @@ def ir_room_image_source_3d(
             truncError, truncValue = calc_truncation_info(room.rir, ir_len)
             max_trunc_error = np.max((max_trunc_error, truncError))
             max_trunc_value = np.max((max_trunc_value, truncValue))
+            if max_order > 0 and measured_rt60 is not None:
+                try:
+                    measured_rt60.append(room.measure_rt60())
+                except ValueError:
+                    measured_rt60 = None
 
     if calculate_metadata:
         metadata = {}
         metadata["Max Normalized Truncation Error (dB)"] = max_trunc_error
         metadata["Max Normalized Truncated Value (dB)"] = max_trunc_value
         if max_order > 0:
-            try:
-                measured_rt60 = room.measure_rt60()
+            if measured_rt60 is not None:
+                measured_rt60 = np.concatenate(measured_rt60)
                 metadata["Measured RT60 (min)"] = np.min(measured_rt60)
                 metadata["Measured RT60 (median)"] = np.median(measured_rt60)
                 metadata["Measured RT60 (mean)"] = np.mean(measured_rt60)
                 metadata["Measured RT60 (max)"] = np.max(measured_rt60)
-            except ValueError:
+            else:
                 metadata["Measured RT60 (min)"] = "failed"
                 metadata["Measured RT60 (median)"] = "failed"
                 metadata["Measured RT60 (mean)"] = "failed"
-- 
2.43.0


From eef3047106c0c3e67079e822494fabdbe2ca1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 56/59] fix: add_arrays keeps the paths that were supplied to
 the collection

---
 src/aspsim/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index a703114..f7fb5af 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -58,7 +58,7 @@ class SimulatorSetup:
         #self.diag = diacore.DiagnosticHandler(self.sim_info) 
 
     def add_arrays(self, array_collection):
-        """Adds all arrays and path types from an array collection
+        """Adds all arrays, path types and supplied paths from an array collection
         
         Parameters
         ----------
@@ -67,6 +67,11 @@ class SimulatorSetup:
         for ar in array_collection:
             self.arrays.add_array(ar)
         self.arrays.set_path_types(array_collection.path_type)
+        for src, mic in array_collection.mic_src_combos():
+            # Only supplied paths, those that were generated are generated for this setup as well
+            if (mic.name in array_collection.paths[src.name]
+                and array_collection.path_type[src.name].get(mic.name, "modified") == "modified"):
+                self.set_path(src.name, mic.name, array_collection.paths[src.name][mic.name])
 
             #if ar.is_source:
             #    self.arrays.paths[ar.name] = {}
-- 
2.43.0


From 5651ab636e83df0da01d3866c6d6e0a58d3ae7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 57/59] fix: audio files of silent or still empty recordings
 are silent instead of full-scale noise or a crash

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index c155516..2238502 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -343,7 +343,8 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         #         fileName = "_".join((name, proc_name, audio_name, str(time_idx)))
         #     file_path = folder.joinpath(fileName + ".wav")
 
-        signal_to_write = signal / np.max(np.abs(signal))
+        max_val = np.max(np.abs(signal), initial=0)
+        signal_to_write = signal / max_val if max_val > 0 else np.zeros(signal.shape)
         
 
         ramp_length = min(int(0.2*samplerate), int(0.1 * signal_to_write.shape[-1]))
-- 
2.43.0


From 83c5befa81d9815459b3caeaad7e892db12d5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 58/59] fix: Gold sequences of orders above 11 use the smallest
 coprime instead of a missing function

---
 src/aspsim/signal/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 84136c1..0bb8936 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -1,3 +1,4 @@
+import math
 import numpy as np
 from abc import ABC, abstractmethod
 
@@ -450,7 +451,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)
-            k = util.getSmallestCoprime(order)
+            k = next(i for i in range(2, order) if math.gcd(i, order) == 1) # smallest coprime
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0


From 490b1f0b6f0fc0310c8abc68086b43240f15938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 59/59] fix: sampling no points from combined regions gives no
 points

---
 src/aspsim/room/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 0d456c0..71a1eb5 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -59,9 +59,9 @@ class CombinedRegion(Region):
         test_val = self.rng.uniform(0,1,num_points)
         reg_idx = np.searchsorted(sample_limit, test_val, side="right")
         reg_idx = np.minimum(reg_idx, len(self.regions) - 1) # in case the sum of ratios is rounded below 1
-        unique, counts = np.unique(reg_idx, return_counts=True)
-        sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
-                        for idx, num in zip(unique, counts)])
+        counts = np.bincount(reg_idx, minlength=len(self.regions))
+        sampled_points = np.concatenate([reg.sample_points(num) 
+                        for reg, num in zip(self.regions, counts)])
         assert sampled_points.shape[0] == num_points
         return sampled_points
 
-- 
2.43.0

