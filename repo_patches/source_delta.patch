From 656c4c564febe44033469801628584c1c571806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 01/76] fix: SequenceList.append keeps the list sorted when an
 entry starts at 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..3ce80e4 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if len(self.starts) > 0 and not any(t is None for t in self.starts):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From 24a4e4f3eee7bce3064da135165b67216f73fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 02/76] fix: SequenceList.concat keeps its values in a plain
 list

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 3ce80e4..637bcd3 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 5ca9c59344006fbd7810b8c4c57d2e299005cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 03/76] fix: popping (and fusing) a top interval re-links its
 neighbours for every Top class

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..ca6c8a9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -171,7 +171,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
+            if issubclass(self.superset_class, Top):
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 514d1028e6027a96019746c2b11babefcddf0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 04/76] fix: setting a new super_instance removes the interval
 from the previous one's subset_list

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..0bc92c8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From 024ec7a44f3a3639770b611e0943fcebb3711ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 05/76] fix: set_subset_list releases the intervals it replaces

---
 src/aligned_textgrid/sequences/sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 0bc92c8..a7920f9 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,7 +150,12 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_values = self._subset_list
             self._subset_list = SequenceList(*subset_list)
+            for orig in orig_values:
+                if not any(orig is x for x in self._subset_list):
+                    orig.super_instance = None
+                    orig.within = None
             for element in subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
-- 
2.43.0


From 2fa82d56a55787d92a84257c0d97335a002e3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:04 +0000
Subject: [PATCH 06/76] fix: set_subset_list takes over another interval's
 subset_list completely

---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index a7920f9..5eba775 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -156,7 +156,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 if not any(orig is x for x in self._subset_list):
                     orig.super_instance = None
                     orig.within = None
-            for element in subset_list:
+            for element in self._subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
-- 
2.43.0


From 0733be9cffc1b57c159227bf0a8d9d2c1c7c066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 07/76] fix: append_subset_list and set_super_instance keep
 within and contains in step

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5eba775..85b439f 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -188,6 +188,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             # avoid recursion
             if not self is subset_instance.super_instance:
                 subset_instance.set_super_instance(self)
+            self._set_within()
             #self.validate()
         elif isinstance(subset_instance, self.subset_class):
             pass
-- 
2.43.0


From 08963421dba5faa452c91d6181fc33dc1d2d52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:10 +0000
Subject: [PATCH 08/76] fix: re-setting tier precedence keeps prev/fol inside
 the superset interval

---
 src/aligned_textgrid/sequences/tiers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ca6c8a9..c2cd3d8 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -138,11 +138,14 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     def __set_precedence(self)->None:
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            # precedence within a superset is set by the superset
+            if seq.super_instance is not None:
+                continue
+            if idx == 0 or self._sequence_list[idx-1].super_instance is not None:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == len(self._sequence_list)-1 or self._sequence_list[idx+1].super_instance is not None:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From 4e8a9dd59e8dd7e06c9190b3fe893d2d86b493e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 09/76] fix: default TierGroups and PointsGroups no longer
 share one tier

---
 src/aligned_textgrid/points/tiers.py    | 4 +++-
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..c04c98d 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -242,8 +242,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
+        if tiers is None:
+            tiers = [SequencePointTier()]
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c2cd3d8..f903ee9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -369,9 +369,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From d0409a8a6c92d324931f554e4b73abc5444e165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 10/76] fix: nested iteration over one interval visits every
 subset interval

---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 85b439f..1066caa 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -425,7 +425,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
     def __iter__(self):
         self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
-- 
2.43.0


From a70623a7bd97bbc4af3d967170f76f8061a6d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:01 +0000
Subject: [PATCH 11/76] fix: a label is never 'in' a SequenceList or
 SequenceInterval, instead of raising

---
 src/aligned_textgrid/sequence_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 637bcd3..028c297 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -59,6 +59,9 @@ class SequenceList(Sequence):
         if other in self._values:
             return True
         
+        if not hasattr(other, "return_praatio"):
+            return False
+
         self_tuples = [tuple(x.return_praatio()) for x in self]
         other_tuple = tuple(other.return_praatio())
         if other_tuple in self_tuples:
-- 
2.43.0


From 6ab3134f6319aa8dffb3ee54f645da01e13f903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 12/76] fix: PointsGroup.xmax is the latest point time

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c04c98d..a710b7b 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -320,7 +320,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From 99e4d99b0e8e79bbecb07bc46aa8c1a7c71872fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 13/76] fix: fol_distance and prev_distance are defined for a
 neighbour at time 0

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From 9604dc76753fec84bf672912b0cbee85a6dd642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:09 +0000
Subject: [PATCH 14/76] fix: get_interval_at_point returns None when the point
 is in no interval

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From ced98c5c8010072d756de7414904bcfae8977132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:13 +0000
Subject: [PATCH 15/76] fix: custom_classes returns classes in the order of a
 return_order given by name

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From 7757b3ce4f2c63d2fb1eff4b53eb980165f2a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:16 +0000
Subject: [PATCH 16/76] fix: to_df accepts a mixture of int and float times

---
 src/aligned_textgrid/outputs/to_dataframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..bb294dd 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -39,7 +39,7 @@ def sequence_to_df(
     sub_df_rows = None
     if len(obj.contains) > 0 and with_subset:
         sub_df_list = [sequence_to_df(x) for x in obj.contains]
-        sub_df = pl.concat(sub_df_list, how="diagonal")
+        sub_df = pl.concat(sub_df_list, how="diagonal_relaxed")
         sub_df_rows = sub_df.shape[0]
 
     out_dict = {
@@ -73,7 +73,7 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_interval_dfs, how="diagonal")
+    out_df = pl.concat(all_interval_dfs, how="diagonal_relaxed")
     return out_df
 
 
@@ -88,7 +88,7 @@ def tiergroup_to_df(
         all_df = [
             tier_to_df(x, with_subset) for x in obj
         ]
-        out_df = pl.concat(all_df, how = "diagonal")
+        out_df = pl.concat(all_df, how = "diagonal_relaxed")
 
     if hasattr(obj, "name"):
        out_df = out_df.with_columns(
@@ -107,7 +107,7 @@ def textgrid_to_df(
         tiergroup_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_df, how="diagonal")
+    out_df = pl.concat(all_df, how="diagonal_relaxed")
 
     return out_df
 
-- 
2.43.0


From d23b8c601ef7ad44443a5e0cf85a774b2c1406c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 17/76] fix: copying a SequencePointTier keeps points added
 after its construction

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index a710b7b..ff4a3e5 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From ee1a418c74486b82128a30d1946f26cfb63584ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:53 +0000
Subject: [PATCH 18/76] fix: points appended or concatenated to a point tier
 get their tier and precedence set

---
 src/aligned_textgrid/points/tiers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ff4a3e5..bc62737 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From 41860cbf9435a5adc9af706e11e80d99b7c545c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:56 +0000
Subject: [PATCH 19/76] fix: PointsGroup.concat works for points, which have no
 super_instance

---
 src/aligned_textgrid/mixins/tiermixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..bd36739 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,7 +297,7 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
                 if interval in t1:
                     continue
-- 
2.43.0


From 15956c32b55f12366e517ad9977b76a02d23c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:59 +0000
Subject: [PATCH 20/76] fix: a PointsGroup keeps its name when it is re-related
 or copied

---
 src/aligned_textgrid/points/tiers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index bc62737..5e04e5f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -255,12 +255,17 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     ):
         if tiers is None:
             tiers = [SequencePointTier()]
+        name = None
         if isinstance(tiers, PointsGroup):
+            name = tiers.name
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From d332f6785384fd07f7c9886d85fa70652e5d0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:02 +0000
Subject: [PATCH 21/76] fix: entry_classes may be given as (nested) tuples

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..9a9abd5 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -187,7 +187,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -324,7 +324,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From f76ddba4f4d80b36aeadcd2498de4336e464d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 22/76] fix: named group accessors follow interleave_class and
 pop_class

---
 src/aligned_textgrid/aligned_textgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 9a9abd5..56038b6 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -648,6 +648,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -730,7 +731,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
-        self.contains = self.tier_groups            
+        self.contains = self.tier_groups
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From 1cf97e177e97640681d21da8085302a18a0d13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:40 +0000
Subject: [PATCH 23/76] fix: return_textgrid gives every tier a unique name

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 56038b6..4eb15bd 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -801,8 +801,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From b6486b10d7ac318878aaf4102f53c42cc3c3d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 24/76] fix: a flat list that repeats a hierarchy uses each
 lower tier once

---
 src/aligned_textgrid/aligned_textgrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 4eb15bd..d7c5b7a 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -278,6 +278,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         ## Nestifying hierarchywise
         entry_list = []
+        used_idxes = []
         for top_idx in top_idxes:
             this_tierlist = []
             this_entrylist = []
@@ -292,12 +293,16 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     done = True
                     break
 
-                try:
-                    next_idx = entry_classes.index(curr.subset_class)
-                except ValueError:
+                next_idxes = [
+                    i for i,c in enumerate(entry_classes)
+                    if c is curr.subset_class and i not in used_idxes
+                ]
+                if len(next_idxes) < 1:
                     done = True
                     break
 
+                next_idx = next_idxes[0]
+                used_idxes.append(next_idx)
                 this_tierlist.append(textgrid.tiers[next_idx])
                 this_entrylist.append(entry_classes[next_idx])
 
-- 
2.43.0


From b32065c813e353bddf76f1fae51f4f94f4106294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:48 +0000
Subject: [PATCH 25/76] fix: popping the last remaining class leaves an empty
 AlignedTextGrid

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index d7c5b7a..1b9de13 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -380,9 +380,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        if len(new) < 1:
-            return
-        
         self._tier_groups = new
         self.contains = self.tier_groups
 
-- 
2.43.0


From 642d7777c08bf8cb3b3b8132bf6ad8ad6c334add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 26/76] fix: tiers of a group that lacks the lower classes of
 its hierarchy are within the group

---
 src/aligned_textgrid/mixins/tiermixins.py   | 5 +++--
 src/aligned_textgrid/sequences/sequences.py | 3 ++-
 src/aligned_textgrid/sequences/tiers.py     | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index bd36739..b8c8405 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -112,8 +112,9 @@ class TierMixins:
            and len(new) > 0 \
            and self.within:
             down_tier = self.within_index+1
-            for interval in new.subset_list:
-                self.within[down_tier].append(interval, re_relate = False)
+            if down_tier < len(self.within):
+                for interval in new.subset_list:
+                    self.within[down_tier].append(interval, re_relate = False)
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 1066caa..a96334e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -111,7 +111,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self.subset_list += [other]
             if self.intier and self.intier.within:
                 self_tier_idx = self.intier.within_index
-                self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                if self_tier_idx+1 < len(self.intier.within):
+                    self.intier.within[self_tier_idx+1].append(other, re_relate = False)
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f903ee9..c627768 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -256,7 +256,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 self.within.re_relate()
                 return
         
-        if self.within:
+        if self.within and self.within_index+1 < len(self.within):
             next_tier = self.within[self.within_index+1]
             next_tier.cleanup()
 
@@ -573,7 +573,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 682bb561020b27df497197841870e1d2d8604bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 27/76] fix: cleanup never adds intervals that end before they
 start

---
 src/aligned_textgrid/sequences/sequences.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index a96334e..16b1d1d 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -568,11 +568,13 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         
         to_add = SequenceList()
 
-        if not np.allclose(self.start, self.first.start):
+        if self.start < self.first.start and \
+           not np.allclose(self.start, self.first.start):
             new_interval = self.subset_class((self.start, self.first.start, ""))
             to_add += [new_interval]
         
-        if not np.allclose(self.end, self.last.end):
+        if self.last.end < self.end and \
+           not np.allclose(self.end, self.last.end):
             new_interval = self.subset_class((self.last.end, self.end, ""))
             to_add += [new_interval]
 
@@ -580,7 +582,8 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
             if idx + 1 == len(self):
                 break
 
-            if not np.allclose(interval.end, self[idx+1].start):
+            if interval.end < self[idx+1].start and \
+               not np.allclose(interval.end, self[idx+1].start):
                 new_interval = self.subset_class((interval.end,self[idx+1].start, ""))
                 to_add += [new_interval]
             
-- 
2.43.0


From b2b0908b669852b118727fdd46d2fb5eddcd601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:24 +0000
Subject: [PATCH 28/76] fix: SequenceTier.cleanup relates the intervals it
 adds, and adds none for rounding noise

---
 src/aligned_textgrid/sequences/tiers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c627768..3430bd3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -244,12 +244,15 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         if np.allclose(self.starts[1:], self.ends[:-1]):
             return
         
-        boundaries = np.unique(np.concatenate([self.starts, self.ends]))
-        new_starts = boundaries[:-1][~np.isin(boundaries[:-1], self.starts)]
-        new_ends = boundaries[1:][~np.isin(boundaries[1:], self.ends)]
-        for s,e in zip(new_starts, new_ends):
-            new = self.entry_class((s, e, ""))
-            self.sequence_list.append(new)
+        gap_starts = self.ends[:-1]
+        gap_ends = self.starts[1:]
+        is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends)
+        new_intervals = [
+            self.entry_class((s, e, ""))
+            for s,e in zip(gap_starts[is_gap], gap_ends[is_gap])
+        ]
+        ## triggers precedence resetting
+        self.sequence_list += new_intervals
 
         if issubclass(self.subset_class, Bottom):
             if self.within:
-- 
2.43.0


From b045e34f78a144faa3bb1bedb31a48b76b3a51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 29/76] fix: intervals that close gaps inside a superset
 interval are added to the lower tier too

---
 src/aligned_textgrid/sequences/tiers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 3430bd3..8ab0af2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -471,14 +471,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
                 # Close internal gaps
                 for lowers in lower_sequences:
-                    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
-                        boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
-                        new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
-                        new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
-                        for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                    gap_starts = lowers.ends[:-1]
+                    gap_ends = lowers.starts[1:]
+                    is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends)
+                    for s, e in zip(gap_starts[is_gap], gap_ends[is_gap]):
+                        new = lowers[0].entry_class((s, e, ""))
+                        lowers.append(new)
+                        lower_tier.append(new, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From f74e3b36cf6ae1e1d147ec86579bf03a2e380f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:07 +0000
Subject: [PATCH 30/76] fix: an interval outside every superset interval is not
 forced into the nearest one

---
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 8ab0af2..78cd887 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -425,7 +425,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # For each lower interval
                 # get the index of the upper interval
                 # it has the most overlap with.
+                # Intervals that overlap with none have no container.
                 upper_container = overlaps.argmax(axis = 1)
+                upper_container[max_overlaps <= 0] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
@@ -445,7 +447,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 starts = np.ma.masked_array(_starts, _starts < 0)
                 ends = np.ma.masked_array(_ends, _ends < 0)
                 
-                mismatches = lower_durations - max_overlaps
+                mismatches = (lower_durations - max_overlaps)[upper_container >= 0]
                 any_mismatch = bool(np.any(mismatches > 0))
 
                 # any_mismatch = bool(np.any(start_match > 0))
-- 
2.43.0


From 8493039263bb4cf8e322fb355ac01cf7f6c445e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 31/76] fix: AlignedTextGrid.cleanup accepts a textgrid with
 only point tiers

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1b9de13..b9e084f 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -478,6 +478,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
+            if len(interval_tgs) < 1:
+                return
+
             if np.allclose(tg_starts.min(), tg_starts.max()) and \
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
-- 
2.43.0


From 0e2fb83bf74da50bc3a8ebf65e32555a58959975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 32/76] fix: AlignedTextGrid.cleanup leaves point tiers out
 when it evens out group edges

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index b9e084f..9e8c382 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -485,7 +485,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -499,7 +499,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmax, tg_starts.max()):
                     continue
 
-- 
2.43.0


From d490d2860bf879c40a5091a9925fea4d1c0bc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:42 +0000
Subject: [PATCH 33/76] fix: AlignedTextGrid.cleanup adds no zero-length
 interval to the group that ends last

---
 src/aligned_textgrid/aligned_textgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 9e8c382..5e9b58c 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -500,7 +500,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
                 
             for tg in interval_tgs:
-                if np.allclose(tg.xmax, tg_starts.max()):
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
-- 
2.43.0


From 564639fdc235a865ecbb212e9d913b7eb597e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:45 +0000
Subject: [PATCH 34/76] fix: AlignedTextGrid.cleanup relates the edge intervals
 it adds

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5e9b58c..b7b1c88 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -512,8 +512,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From 7c039d906cff606ae18637c44678a14073a63409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:18 +0000
Subject: [PATCH 35/76] fix: xmin and xmax of groups and textgrids ignore empty
 tiers instead of raising

---
 src/aligned_textgrid/aligned_textgrid.py |  8 +++++---
 src/aligned_textgrid/points/tiers.py     | 12 ++++--------
 src/aligned_textgrid/sequences/tiers.py  |  6 ++++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index b7b1c88..ce807b0 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -397,13 +397,15 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        times = [tgroup.xmin for tgroup in self.tier_groups if tgroup.xmin is not None]
+        return np.array(times).min() if times else None
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        times = [tgroup.xmax for tgroup in self.tier_groups if tgroup.xmax is not None]
+        return np.array(times).max() if times else None
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
@@ -474,7 +476,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 if isinstance(tg, TierGroup):
                     tg.cleanup()
             
-            interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            interval_tgs = [tg for tg in self if isinstance(tg, TierGroup) and tg.xmin is not None]
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 5e04e5f..66153e0 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -326,17 +326,13 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
-        )
-        return times.min()
+        times = [t.xmin for t in self.tier_list if len(t) > 0]
+        return np.array(times).min() if times else None
 
     @property    
     def xmax(self):
-        times = np.array(
-            [t.xmax for t in self.tier_list]
-        )
-        return times.max()
+        times = [t.xmax for t in self.tier_list if len(t) > 0]
+        return np.array(times).max() if times else None
     
     def __repr__(self):
         n_tiers = len(self.tier_list)
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 78cd887..b119dca 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -593,11 +593,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        times = [tier.xmin for tier in self.tier_list if len(tier) > 0]
+        return np.array(times).min() if times else None
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        times = [tier.xmax for tier in self.tier_list if len(tier) > 0]
+        return np.array(times).max() if times else None
     
     def _project_up(self, interval:SequenceInterval)->None:
         """
-- 
2.43.0


From aea16a9636f68ba5997483c29f59ae751a231633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 36/76] fix: gap closing compares times absolutely, so long
 recordings get their gaps closed

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b119dca..ef2c1a1 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -246,7 +246,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         
         gap_starts = self.ends[:-1]
         gap_ends = self.starts[1:]
-        is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends)
+        is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0)
         new_intervals = [
             self.entry_class((s, e, ""))
             for s,e in zip(gap_starts[is_gap], gap_ends[is_gap])
@@ -475,7 +475,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 for lowers in lower_sequences:
                     gap_starts = lowers.ends[:-1]
                     gap_ends = lowers.starts[1:]
-                    is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends)
+                    is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0)
                     for s, e in zip(gap_starts[is_gap], gap_ends[is_gap]):
                         new = lowers[0].entry_class((s, e, ""))
                         lowers.append(new)
-- 
2.43.0


From 765c553f9706947a6ea6d8529fc9c92cf418ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:15 +0000
Subject: [PATCH 37/76] fix: fusing intervals re-links the neighbour beyond the
 fused interval

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 16b1d1d..de9fd80 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -606,7 +606,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.end = fusee.end
-            fuser.fol = fusee.fol
+            fuser.set_fol(fusee.fol)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -637,7 +637,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.start = fusee.start
-            fuser.prev = fusee.prev
+            fuser.set_prev(fusee.prev)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From 3a2b9ebbce5f6a5664205e19423a4fc64eb1390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 38/76] fix: TierGroup.cleanup does not project the intervals
 of its topmost tier into its last tier

---
 src/aligned_textgrid/sequences/tiers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ef2c1a1..1d20869 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -608,6 +608,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         if issubclass(interval.superset_class, Top):
             return
         up_index = interval.intier.within_index - 1
+        if up_index < 0:
+            return
         up_tier:SequenceTier = interval.intier.within[up_index]
         midp = interval.start + (interval.duration/2)
         if not up_tier.get_interval_at_time(midp) is None:
-- 
2.43.0


From 2931e0d5de5e0a03880cc4b2d1a75e766d85c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:51 +0000
Subject: [PATCH 39/76] fix: appending to the topmost tier of a partial group
 does not reach for the group's last tier

---
 src/aligned_textgrid/mixins/tiermixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index b8c8405..43775f7 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -120,7 +120,8 @@ class TierMixins:
            and new.super_instance \
            and self.within:
             uptier  = self.within_index-1
-            self.within[uptier].append(new.super_instance, re_relate = False)
+            if uptier >= 0:
+                self.within[uptier].append(new.super_instance, re_relate = False)
             
         if self.within and re_relate:
             self.within.re_relate()
-- 
2.43.0


From a9137c9de364200a30eed5ca541e50e0a91d15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:06 +0000
Subject: [PATCH 40/76] fix: TierGroup.cleanup projects intervals without a
 superset interval up through every level

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 1d20869..900023b 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -629,7 +629,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         """
         not_tight = False
         
-        for tier in self:
+        for tier in reversed(self.tier_list):
             starts = tier.starts
             ends = tier.ends
 
-- 
2.43.0


From 0197b8fa9ffc0975150f0897ec0b182bfa2d5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:10 +0000
Subject: [PATCH 41/76] fix: TierGroup.cleanup fills an empty tier below a tier
 with intervals

---
 src/aligned_textgrid/sequences/tiers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 900023b..c38e389 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -628,6 +628,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         with an empty label.
         """
         not_tight = False
+
+        for upper_tier, lower_tier in zip(self.tier_list[:-1], self.tier_list[1:]):
+            if len(upper_tier) > 0 and len(lower_tier) < 1:
+                lower_tier.sequence_list = [
+                    lower_tier.entry_class((u.start, u.end, "")) for u in upper_tier
+                ]
+                self.re_relate()
         
         for tier in reversed(self.tier_list):
             starts = tier.starts
-- 
2.43.0


From 670b681955af18be0472d1f808c27a078e0c45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:34 +0000
Subject: [PATCH 42/76] fix: tiers with integer times can be shifted by a
 fraction

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 66153e0..bf7b6fb 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -176,7 +176,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         
     def _shift(self, increment):
-        self.times += increment
+        self.times = self.times + increment
     
     def cleanup(self):
         pass
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c38e389..0f56be3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -216,8 +216,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             i.end = t
 
     def _shift(self, increment:float) -> None:
-        self.starts += increment
-        self.ends   += increment
+        self.starts = self.starts + increment
+        self.ends   = self.ends + increment
 
     @property
     def labels(self)->list[str]:
-- 
2.43.0


From a988d95209e04ca60944a3916fecf3b98c2d8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:53 +0000
Subject: [PATCH 43/76] fix: popping the top class re-links the intervals of
 the tier that becomes the top tier

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index ce807b0..00a0a6b 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -729,6 +729,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 tier.superset_class = tier.entry_class.superset_class
                 tier.subset_class = tier.entry_class.subset_class
             new_tg = TierGroup(keep_tiers)
+            # the tier that is topmost now sets its own precedence and contents
+            new_tg[0].sequence_list = new_tg[0].sequence_list
             for seq in new_tg[-1]:
                 seq.subset_list = []
                 seq.contains = []
-- 
2.43.0


From e6d83029540689aa0c765af6d00a80f60df54e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 44/76] fix: save_as_tg passes the argument praatio requires

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index bf7b6fb..ae0a26b 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -234,7 +234,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 0f56be3..6b126f2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -343,7 +343,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From 13e94006fcb03df24c65e2855a517c4005525ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:48 +0000
Subject: [PATCH 45/76] fix: tiers of groups interleave_class and pop_class
 pass over follow the changed class hierarchy

---
 src/aligned_textgrid/aligned_textgrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 00a0a6b..658a07f 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -654,6 +654,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tiergoups
         for tgr in self.tier_groups:
             tgr.within = self
+            if isinstance(tgr, TierGroup):
+                for tier in tgr:
+                    tier.superset_class = tier.entry_class.superset_class
+                    tier.subset_class = tier.entry_class.subset_class
         self.contains = self.tier_groups
         self._set_group_names()
 
@@ -740,6 +744,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
+            if isinstance(tgr, TierGroup):
+                for tier in tgr:
+                    tier.superset_class = tier.entry_class.superset_class
+                    tier.subset_class = tier.entry_class.subset_class
         self.contains = self.tier_groups
         self._set_group_names()
             
-- 
2.43.0


From 7a9bac4ad3a3403cae65af0a688f99a53776e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:44 +0000
Subject: [PATCH 46/76] fix: to_df leaves out empty tiers instead of failing on
 them

---
 src/aligned_textgrid/outputs/to_dataframe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index bb294dd..2d9b18f 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -73,6 +73,9 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
+    if len(all_interval_dfs) < 1:
+        return pl.DataFrame()
+
     out_df = pl.concat(all_interval_dfs, how="diagonal_relaxed")
     return out_df
 
@@ -90,6 +93,9 @@ def tiergroup_to_df(
         ]
         out_df = pl.concat(all_df, how = "diagonal_relaxed")
 
+    if out_df.is_empty():
+        return out_df
+
     if hasattr(obj, "name"):
        out_df = out_df.with_columns(
             name=pl.lit(obj.name)
-- 
2.43.0


From f3795a29148d990f0a90280524f5adf5a16891b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:48 +0000
Subject: [PATCH 47/76] fix: an empty point tier has no nearest point instead
 of failing the lookup

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ae0a26b..470e31c 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -193,6 +193,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         Returns:
             (int): The index of the nearest point within the tier
         """
+        if len(self) < 1:
+            return None
         out_idx = np.abs(self.times-time).argmin()
         return out_idx
     
@@ -209,6 +211,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             (SequencePoint): the nearest point to `time`
         """
         out_idx = self.get_nearest_point_index(time)
+        if out_idx is None:
+            return None
         return self.sequence_list[out_idx]
 
     def return_tier(self, name:str|None = None) -> PointTier:
-- 
2.43.0


From 1d7c4a002b6176ff381853a2f1277fb10bd34a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 48/76] fix: a textgrid with an empty tier can be returned and
 saved

---
 src/aligned_textgrid/aligned_textgrid.py |  4 +++-
 src/aligned_textgrid/points/tiers.py     | 17 +++++++++++++++--
 src/aligned_textgrid/sequences/tiers.py  | 17 +++++++++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 658a07f..5f01001 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -822,7 +822,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
-                out_tg.addTier(tier = tier.return_tier(name))
+                out_tg.addTier(
+                    tier = tier.return_tier(name, minT = self.xmin, maxT = self.xmax)
+                )
         return out_tg
 
     def save_textgrid(
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 470e31c..0113dad 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -215,16 +215,29 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         return self.sequence_list[out_idx]
 
-    def return_tier(self, name:str|None = None) -> PointTier:
+    def return_tier(
+            self,
+            name: str|None = None,
+            minT: float|None = None,
+            maxT: float|None = None
+        ) -> PointTier:
         """Returns SequencePointTier as a `praatio` PointTier
 
+        Args:
+            name (str, optional): Name to use instead of the tier's own.
+            minT (float, optional): Start of the time range, for an empty tier.
+            maxT (float, optional): End of the time range, for an empty tier.
+
         Returns:
             (PointTier): A `praatio` point tier
         """
         if name is None:
             name = self.name
         all_points = [entry.return_point() for entry in self.sequence_list]
-        point_tier = PointTier(name = name, entries=all_points)
+        if len(all_points) > 0:
+            # a tier with entries has its own time range
+            minT, maxT = None, None
+        point_tier = PointTier(name = name, entries = all_points, minT = minT, maxT = maxT)
         return(point_tier)
     
     def save_as_tg(
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 6b126f2..308adbd 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -313,9 +313,19 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         else:
             return None
     
-    def return_tier(self, name:str|None = None) -> IntervalTier:
+    def return_tier(
+            self,
+            name: str|None = None,
+            minT: float|None = None,
+            maxT: float|None = None
+        ) -> IntervalTier:
         """Returns a `praatio` interval tier
 
+        Args:
+            name (str, optional): Name to use instead of the tier's own.
+            minT (float, optional): Start of the time range, for an empty tier.
+            maxT (float, optional): End of the time range, for an empty tier.
+
         Returns:
             (praatio.data_classes.interval_tier.IntervalTier):
                 A `praatio` interval tier. Useful for saving results
@@ -325,7 +335,10 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         if name is None:
             name = self.name
         all_intervals = [entry.return_interval() for entry in self.sequence_list]
-        interval_tier = IntervalTier(name = name, entries = all_intervals)
+        if len(all_intervals) > 0:
+            # a tier with entries has its own time range
+            minT, maxT = None, None
+        interval_tier = IntervalTier(name = name, entries = all_intervals, minT = minT, maxT = maxT)
         return interval_tier
 
     
-- 
2.43.0


From c86bb6b938be948c4ec9917146fc4c655b1a8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:33 +0000
Subject: [PATCH 49/76] fix: a '?' on a turning point is its certainty, not
 part of its override

---
 src/aligned_textgrid/polar/polar_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index dcbdad3..526c71f 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -86,7 +86,7 @@ class TurningPoints(SequencePoint):
     
     @property
     def override(self):
-        override_value = self.label.split(",")[-1]
+        override_value = self.label.replace("?", "").split(",")[-1]
         if override_value == "0":
             return None
         return override_value
-- 
2.43.0


From 22a346762ac7e00ea9d262fb828ea8b9dcf3da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:38 +0000
Subject: [PATCH 50/76] fix: a PolarGrid whose turning points tier is empty can
 be read

---
 src/aligned_textgrid/polar/polar_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index 526c71f..919aa0a 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -70,7 +70,7 @@ class TurningPoints(SequencePoint):
         instance = tier.get_nearest_point(self.time)
         #instance = tier[idx]
         
-        if self.level is instance:
+        if instance is None or self.level is instance:
             return
         
         if np.allclose(self.time, instance.time):
@@ -168,7 +168,7 @@ class Levels(SequencePoint):
         instance = tier.get_nearest_point(self.time)
         #instance = tier[idx]
 
-        if self.turning_point is instance:
+        if instance is None or self.turning_point is instance:
             return
 
         if np.allclose(self.time, instance.time):
-- 
2.43.0


From 5a302a5a4c03c72e1734cb867f3c2b1b5fc3393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:02 +0000
Subject: [PATCH 51/76] fix: get_class_hierarchy starts from an empty list on
 every call

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 36eb8a552dc8b5633431553ccb7df904c15c8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:37 +0000
Subject: [PATCH 52/76] fix: cleanup and validate compare times absolutely, as
 gap closing does

---
 src/aligned_textgrid/aligned_textgrid.py    |  8 ++++----
 src/aligned_textgrid/sequences/sequences.py | 12 ++++++------
 src/aligned_textgrid/sequences/tiers.py     |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5f01001..097843c 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -483,12 +483,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
             if len(interval_tgs) < 1:
                 return
 
-            if np.allclose(tg_starts.min(), tg_starts.max()) and \
-            np.allclose(tg_ends.min(), tg_ends.max()):
+            if np.allclose(tg_starts.min(), tg_starts.max(), rtol=0) and \
+            np.allclose(tg_ends.min(), tg_ends.max(), rtol=0):
                 return
             
             for tg in interval_tgs:
-                if np.allclose(tg.xmin, tg_starts.min()):
+                if np.allclose(tg.xmin, tg_starts.min(), rtol=0):
                     continue
 
                 start = tg_starts.min()
@@ -502,7 +502,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
                 
             for tg in interval_tgs:
-                if np.allclose(tg.xmax, tg_ends.max()):
+                if np.allclose(tg.xmax, tg_ends.max(), rtol=0):
                     continue
 
                 start = tg.xmax
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index de9fd80..ddf1585 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -274,7 +274,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if self.start is None:
             return True
 
-        if not np.allclose(self.start, self.sub_starts[0]):
+        if not np.allclose(self.start, self.sub_starts[0], rtol=0):
             if self.start < self.sub_starts[0]:
                 validation_concerns.append(
                     "First subset interval starts after current interval"
@@ -283,7 +283,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "First subset interval starts before current interval"
                 )
-        if not np.allclose(self.end, self.sub_ends[-1]):
+        if not np.allclose(self.end, self.sub_ends[-1], rtol=0):
             if self.end > self.sub_ends[-1]:
                 validation_concerns.append(
                     "Last subset interval ends before current interval"
@@ -292,7 +292,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "Last subset interval ends after current interval"
                 )
-        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1]):
+        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1], rtol=0):
             validation_concerns.append(
                 "Not all subintervals fit snugly"
             )
@@ -569,12 +569,12 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         to_add = SequenceList()
 
         if self.start < self.first.start and \
-           not np.allclose(self.start, self.first.start):
+           not np.allclose(self.start, self.first.start, rtol=0):
             new_interval = self.subset_class((self.start, self.first.start, ""))
             to_add += [new_interval]
         
         if self.last.end < self.end and \
-           not np.allclose(self.end, self.last.end):
+           not np.allclose(self.end, self.last.end, rtol=0):
             new_interval = self.subset_class((self.last.end, self.end, ""))
             to_add += [new_interval]
 
@@ -583,7 +583,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 break
 
             if interval.end < self[idx+1].start and \
-               not np.allclose(interval.end, self[idx+1].start):
+               not np.allclose(interval.end, self[idx+1].start, rtol=0):
                 new_interval = self.subset_class((interval.end,self[idx+1].start, ""))
                 to_add += [new_interval]
             
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 308adbd..b6a0c6f 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -241,7 +241,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         Insert empty intervals where there are gaps in the existing tier.
         """            
-        if np.allclose(self.starts[1:], self.ends[:-1]):
+        if np.allclose(self.starts[1:], self.ends[:-1], rtol=0):
             return
         
         gap_starts = self.ends[:-1]
@@ -504,7 +504,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     for l in lower_sequences
                 ])
 
-                squish = not np.allclose(u_durs, l_durs)
+                squish = not np.allclose(u_durs, l_durs, rtol=0)
 
                 for u,l in zip(upper_tier, lower_sequences):
                     u.set_subset_list(l)
@@ -654,7 +654,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
             ends = tier.ends
 
             if not np.allclose(
-                starts[1:], ends[:-1]
+                starts[1:], ends[:-1], rtol=0
             ):
                 not_tight = True
 
-- 
2.43.0


From ebf5ff62ec492302672fa1a03de84ed646b7383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:38 +0000
Subject: [PATCH 53/76] fix: tier_names of a textgrid with point tiers lists
 them instead of failing

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 0113dad..b10e6fa 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -341,6 +341,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
     
+    @property
+    def tier_names(self)->list[str]:
+        return [x.name for x in self.tier_list]
+    
     @property
     def xmin(self):
         times = [t.xmin for t in self.tier_list if len(t) > 0]
-- 
2.43.0


From abbeefb4dc217ace92db6b59e56c834876e50d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:34 +0000
Subject: [PATCH 54/76] fix: differences below 10 microseconds are rounding,
 not gaps

---
 src/aligned_textgrid/aligned_textgrid.py    |  8 ++++----
 src/aligned_textgrid/sequences/sequences.py | 12 ++++++------
 src/aligned_textgrid/sequences/tiers.py     |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 097843c..888f4b3 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -483,12 +483,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
             if len(interval_tgs) < 1:
                 return
 
-            if np.allclose(tg_starts.min(), tg_starts.max(), rtol=0) and \
-            np.allclose(tg_ends.min(), tg_ends.max(), rtol=0):
+            if np.allclose(tg_starts.min(), tg_starts.max(), rtol=0, atol=1e-5) and \
+            np.allclose(tg_ends.min(), tg_ends.max(), rtol=0, atol=1e-5):
                 return
             
             for tg in interval_tgs:
-                if np.allclose(tg.xmin, tg_starts.min(), rtol=0):
+                if np.allclose(tg.xmin, tg_starts.min(), rtol=0, atol=1e-5):
                     continue
 
                 start = tg_starts.min()
@@ -502,7 +502,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
                 
             for tg in interval_tgs:
-                if np.allclose(tg.xmax, tg_ends.max(), rtol=0):
+                if np.allclose(tg.xmax, tg_ends.max(), rtol=0, atol=1e-5):
                     continue
 
                 start = tg.xmax
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index ddf1585..39bdc25 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -274,7 +274,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if self.start is None:
             return True
 
-        if not np.allclose(self.start, self.sub_starts[0], rtol=0):
+        if not np.allclose(self.start, self.sub_starts[0], rtol=0, atol=1e-5):
             if self.start < self.sub_starts[0]:
                 validation_concerns.append(
                     "First subset interval starts after current interval"
@@ -283,7 +283,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "First subset interval starts before current interval"
                 )
-        if not np.allclose(self.end, self.sub_ends[-1], rtol=0):
+        if not np.allclose(self.end, self.sub_ends[-1], rtol=0, atol=1e-5):
             if self.end > self.sub_ends[-1]:
                 validation_concerns.append(
                     "Last subset interval ends before current interval"
@@ -292,7 +292,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "Last subset interval ends after current interval"
                 )
-        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1], rtol=0):
+        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1], rtol=0, atol=1e-5):
             validation_concerns.append(
                 "Not all subintervals fit snugly"
             )
@@ -569,12 +569,12 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         to_add = SequenceList()
 
         if self.start < self.first.start and \
-           not np.allclose(self.start, self.first.start, rtol=0):
+           not np.allclose(self.start, self.first.start, rtol=0, atol=1e-5):
             new_interval = self.subset_class((self.start, self.first.start, ""))
             to_add += [new_interval]
         
         if self.last.end < self.end and \
-           not np.allclose(self.end, self.last.end, rtol=0):
+           not np.allclose(self.end, self.last.end, rtol=0, atol=1e-5):
             new_interval = self.subset_class((self.last.end, self.end, ""))
             to_add += [new_interval]
 
@@ -583,7 +583,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 break
 
             if interval.end < self[idx+1].start and \
-               not np.allclose(interval.end, self[idx+1].start, rtol=0):
+               not np.allclose(interval.end, self[idx+1].start, rtol=0, atol=1e-5):
                 new_interval = self.subset_class((interval.end,self[idx+1].start, ""))
                 to_add += [new_interval]
             
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b6a0c6f..c6080a0 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -241,12 +241,12 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         Insert empty intervals where there are gaps in the existing tier.
         """            
-        if np.allclose(self.starts[1:], self.ends[:-1], rtol=0):
+        if np.allclose(self.starts[1:], self.ends[:-1], rtol=0, atol=1e-5):
             return
         
         gap_starts = self.ends[:-1]
         gap_ends = self.starts[1:]
-        is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0)
+        is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0, atol=1e-5)
         new_intervals = [
             self.entry_class((s, e, ""))
             for s,e in zip(gap_starts[is_gap], gap_ends[is_gap])
@@ -488,7 +488,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 for lowers in lower_sequences:
                     gap_starts = lowers.ends[:-1]
                     gap_ends = lowers.starts[1:]
-                    is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0)
+                    is_gap = (gap_starts < gap_ends) & ~np.isclose(gap_starts, gap_ends, rtol=0, atol=1e-5)
                     for s, e in zip(gap_starts[is_gap], gap_ends[is_gap]):
                         new = lowers[0].entry_class((s, e, ""))
                         lowers.append(new)
@@ -654,7 +654,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
             ends = tier.ends
 
             if not np.allclose(
-                starts[1:], ends[:-1], rtol=0
+                starts[1:], ends[:-1], rtol=0, atol=1e-5
             ):
                 not_tight = True
 
-- 
2.43.0


From 8059c0f4af8b0dfbc818c5801fd913ba2ae69b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:38 +0000
Subject: [PATCH 55/76] fix: PoLaR levels and turning points coincide by
 absolute, not relative, time

---
 src/aligned_textgrid/polar/polar_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index 919aa0a..2033574 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -73,7 +73,7 @@ class TurningPoints(SequencePoint):
         if instance is None or self.level is instance:
             return
         
-        if np.allclose(self.time, instance.time):
+        if np.allclose(self.time, instance.time, rtol=0, atol=1e-5):
             self.level = instance
 
             instance.set_turning_point(self.intier)
@@ -171,7 +171,7 @@ class Levels(SequencePoint):
         if instance is None or self.turning_point is instance:
             return
 
-        if np.allclose(self.time, instance.time):
+        if np.allclose(self.time, instance.time, rtol=0, atol=1e-5):
             self.turning_point = instance
 
             instance.set_level(self.intier)
-- 
2.43.0


From 634862e74a60a6e78aa65f91ef342a11660b710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:32 +0000
Subject: [PATCH 56/76] fix: a lower tier stays in time order when an interval
 across several superset intervals is clipped

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c6080a0..c282f5a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -525,6 +525,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
+
+                # Clipping may have moved intervals past added ones
+                lower_tier.sequence_list._sort()
     
     def __getitem__(
             self,
-- 
2.43.0


From a6c51d6563b92f86c0328161a6bd05d80616bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:28 +0000
Subject: [PATCH 57/76] fix: cleanup after popping intervals closes the gaps
 inside superset intervals instead of clipping those

---
 src/aligned_textgrid/sequences/tiers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c282f5a..9c26e9a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -241,6 +241,10 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         Insert empty intervals where there are gaps in the existing tier.
         """            
+        if self.within:
+            # gaps inside superset intervals are closed one by one
+            self.within.re_relate()
+
         if np.allclose(self.starts[1:], self.ends[:-1], rtol=0, atol=1e-5):
             return
         
@@ -643,6 +647,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         This will fill any gaps between intervals with intervals
         with an empty label.
         """
+        self.re_relate()
         not_tight = False
 
         for upper_tier, lower_tier in zip(self.tier_list[:-1], self.tier_list[1:]):
-- 
2.43.0


From 31339280e0e5b961fa39c51a51c7ec9cca6827b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:46 +0000
Subject: [PATCH 58/76] fix: classes may have names that contain Top or Bottom

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 39bdc25..cdd654c 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -50,7 +50,7 @@ class HierarchyMixins:
         """
         if superset_class is None:
             cls.superset_class = None
-        elif "Top" in cls.__name__ :
+        elif issubclass(cls, Top):
             cls.superset_class = None
         elif issubclass(superset_class, HierarchyPart) and not superset_class is cls:
             cls.superset_class = superset_class
@@ -76,7 +76,7 @@ class HierarchyMixins:
 
         if subset_class is None:
             cls.subset_class = None
-        elif "Bottom" in cls.__name__:
+        elif issubclass(cls, Bottom):
             cls.subset_class = None
         elif issubclass(subset_class, HierarchyPart) and not subset_class is cls:
             cls.subset_class = subset_class
-- 
2.43.0


From 0aed8df1cc592cdc69e2100c7fb7a907eee41eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:56 +0000
Subject: [PATCH 59/76] fix: named accessors do not replace a container's own
 attributes

---
 src/aligned_textgrid/aligned_textgrid.py  | 8 ++++++++
 src/aligned_textgrid/mixins/tiermixins.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 888f4b3..9af05e2 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -367,6 +367,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
             return
         
         for idx, name in enumerate(tier_group_names):
+            if hasattr(type(self), name):
+                warnings.warn(
+                    (
+                        f"A TierGroup is named {name!r}, like an attribute of "
+                        "AlignedTextGrid. Its named accessor is unavailable."
+                    )
+                )
+                continue
             setattr(self, name, self.tier_groups[idx])
 
     @property
diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 43775f7..8611eb4 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -326,6 +326,14 @@ class TierGroupMixins:
             return
 
         for idx, name in enumerate(entry_class_names):
+            if hasattr(type(self), name):
+                warnings.warn(
+                    (
+                        f"An entry class is named {name!r}, like an attribute of "
+                        "the tier group. Its named accessor is unavailable."
+                    )
+                )
+                continue
             setattr(self, name, self.tier_list[idx])
 
     @property
-- 
2.43.0


From b3aa7f6f34bb1238930977431086b114863d5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 60/76] fix: a group keeps its name and accessor when a tier is
 appended

---
 src/aligned_textgrid/mixins/tiermixins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 8611eb4..f5f7ffa 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -275,13 +275,19 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        # A name that was given is kept
+        given_name = self.name if self.name != self.make_name() else None
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
         self.__init__(orig_tiers)
-        
 
-        pass
+        if given_name:
+            self.name = given_name
+
+        if self.within:
+            self.within._set_group_names()
 
     def concat(self:TierGroupType, new:TierType):
         """Horizontally concatenate a tier group.
-- 
2.43.0


From bba0353f30d87b74c3db133c71e6dd88eb22ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 61/76] fix: interleave_class works with a tier that has no
 intervals

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 9af05e2..baa4513 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -637,7 +637,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
                 new_tier = SequenceTier(
-                    [new_class(seq) for seq in copy_tier]
+                    [new_class(seq) for seq in copy_tier],
+                    entry_class=new_class
                 )
                 if not copy_labels:
                     for seq in new_tier:
-- 
2.43.0


From 9c0bbbabd92e9682ca33c3209effd1dde5480f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 62/76] fix: pop_class releases the intervals of the removed
 tier

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index baa4513..81148b2 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -741,6 +741,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             for tier in keep_tiers:
                 tier.superset_class = tier.entry_class.superset_class
                 tier.subset_class = tier.entry_class.subset_class
+            for seq in pop_tier:
+                seq.remove_superset()
             new_tg = TierGroup(keep_tiers)
             # the tier that is topmost now sets its own precedence and contents
             new_tg[0].sequence_list = new_tg[0].sequence_list
-- 
2.43.0


From 2f3a26b835b6e46e9b673264652a2660e5a20be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 63/76] fix: a label function that raises leaves the intervals
 to be fused as they were

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index cdd654c..6861271 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -605,9 +605,9 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            fuser.label = label_fun(fuser.label, fusee.label)
             fuser.end = fusee.end
             fuser.set_fol(fusee.fol)
-            fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
             fuser.subset_list = new_list
@@ -636,9 +636,9 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            fuser.label = label_fun(fusee.label, fuser.label)
             fuser.start = fusee.start
             fuser.set_prev(fusee.prev)
-            fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
 
-- 
2.43.0


From 44479ffbb414ea05a095bea67a659405c708ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:13 +0000
Subject: [PATCH 64/76] fix: an equal interval leaves or joins a subset list
 without breaking the links of the one there

---
 src/aligned_textgrid/sequence_list.py       | 12 ++++++------
 src/aligned_textgrid/sequences/sequences.py |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 028c297..22c6ca5 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -245,9 +245,9 @@ class SequenceList(Sequence):
         self_tuples = [tuple(x.return_praatio()) for x in self]
         x_tuple = tuple(x.return_praatio())        
         pop_idx = self_tuples.index(x_tuple)
-        self._values.pop(pop_idx)
-        if hasattr(x, "super_instance"):
-            x.remove_superset()
+        removed = self._values.pop(pop_idx)
+        if hasattr(removed, "super_instance"):
+            removed.remove_superset()
 
     def pop(self:Sequence[SeqVar], x:SeqVar)->None:
         """Pop a SequenceInterval
@@ -260,6 +260,6 @@ class SequenceList(Sequence):
             self_tuples = [tuple(x.return_praatio()) for x in self]
             x_tuple = tuple(x.return_praatio())        
             pop_idx = self_tuples.index(x_tuple)
-            self._values.pop(pop_idx)
-            if hasattr(x, "super_instance"):
-                x.remove_superset()
+            removed = self._values.pop(pop_idx)
+            if hasattr(removed, "super_instance"):
+                removed.remove_superset()
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 6861271..678dd51 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -131,6 +131,9 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
+            if not any(x is self for x in super_instance.subset_list):
+                # super_instance already has an interval with the same times and label
+                self.super_instance = None
         else:
             raise Exception(f"The superset_class was defined as {self.superset_class.__name__}, but provided super_instance was {type(super_instance).__name__}")
                         
@@ -207,8 +210,6 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
         
         self._subset_list.remove(subset_instance)
-        subset_instance.super_instance = None
-        subset_instance.within = None
         self._set_subset_precedence()
         #self.validate()
     
-- 
2.43.0


From a11b0e3561c6f4ae91f0139bd0e505db82614df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:17 +0000
Subject: [PATCH 65/76] fix: tiers keep their names when their group is
 appended to a textgrid

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 81148b2..5560d5a 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -459,8 +459,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From 159d09b90ca6ae86d53145fa85055b0e7a2ead73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:23 +0000
Subject: [PATCH 66/76] fix: TierGroup refuses tiers outside one hierarchy
 instead of dropping them

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 9c26e9a..6c9fadd 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -600,6 +600,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     break
                 
                 top_to_bottom.append(tiers[next_idx])
+
+        if len(top_to_bottom) < len(tiers):
+            raise ValueError((
+                "Not all tiers fit into one sequence hierarchy: "
+                f"{[x.entry_class.__name__ for x in tiers]}"
+            ))
         self.contains = top_to_bottom
         return(top_to_bottom)
             
-- 
2.43.0


From d82ca2fb41cf85f24aaaf3f36449463fc7ca277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:29 +0000
Subject: [PATCH 67/76] fix: a tier refused by a group keeps its classes

---
 src/aligned_textgrid/mixins/tiermixins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index f5f7ffa..32a74ec 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -235,10 +235,10 @@ class TierGroupMixins:
                 f"can be appended to a {self.__class__.__name__}"
             ))
         
+        new_class = new.entry_class
         if self.within:
             self.within._reclone_classes([new.entry_class])
             new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
-            new.__init__(new, entry_class=new_class)
         
         possible_set = {SequenceBaseClass}
         existing_set = set()
@@ -254,7 +254,7 @@ class TierGroupMixins:
             existing_set = {tier.entry_class for tier in self}
 
         existing_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in existing_set
         ]
 
@@ -265,7 +265,7 @@ class TierGroupMixins:
             ))
 
         possible_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in possible_set
         ]
 
@@ -275,6 +275,9 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        if self.within:
+            new.__init__(new, entry_class=new_class)
+
         # A name that was given is kept
         given_name = self.name if self.name != self.make_name() else None
 
-- 
2.43.0


From 6acbce74bcd908ba3075fcbe30ec268dbee86462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:33 +0000
Subject: [PATCH 68/76] fix: interleave_class refuses timing from beyond a
 group's tiers before it changes classes

---
 src/aligned_textgrid/aligned_textgrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5560d5a..2651c73 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -625,6 +625,13 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        for tg in self.tier_groups:
+            if specified_class in tg.entry_classes and not copy_class in tg.entry_classes:
+                raise ValueError((
+                    f"TierGroup {tg.name} has no tier {timing_from} {name} "
+                    "to take the timing from."
+                ))
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From b119abdc15a18bb16b2dc2e253e086dd3508d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:40 +0000
Subject: [PATCH 69/76] fix: a removed group is not reached by its name any
 more

---
 src/aligned_textgrid/aligned_textgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 2651c73..03c078e 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -356,6 +356,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
             if tier_group_names.count(name) > 1
         ]
 
+        for name in getattr(self, "_group_accessors", []):
+            if isinstance(self.__dict__.get(name), TierGroupMixins):
+                delattr(self, name)
+        self._group_accessors = []
+
         if len(duplicate_names) > 0:
             unique_dup = set(duplicate_names)
             warnings.warn(
@@ -376,6 +381,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 )
                 continue
             setattr(self, name, self.tier_groups[idx])
+            self._group_accessors.append(name)
 
     @property
     def tier_groups(self) -> list[TierGroup|PointsGroup|None]:
-- 
2.43.0


From 2866b7ceff55a55e0d83e74e9ac0daa52ae759a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 70/76] fix: adding to a SequenceList leaves the list it was
 added to alone

---
 src/aligned_textgrid/sequence_list.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 22c6ca5..00e74b5 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -77,25 +77,23 @@ class SequenceList(Sequence):
         other = [x for x in other if x not in self]
 
         if len(other) < 1:
-            return self
+            output = SequenceList(*self._values)
+            output.entry_class = self.entry_class
+            return output
 
         unique_other_classes = set([x.__class__ for x in other])
 
         if len(unique_other_classes) > 1:
             raise ValueError("All values in added list must have the same class.")
     
-        if len(unique_other_classes) < 1:
-            return self
-        
         incoming_class = next(iter(unique_other_classes))
         if self.entry_class and not (issubclass(incoming_class, self.entry_class) or (issubclass(self.entry_class, incoming_class))):
             raise ValueError("All values in added list must have the same class as original list.")
         
-        if not self.entry_class:
-            self.entry_class = next(iter(unique_other_classes))
+        entry_class = self.entry_class or incoming_class
 
         new_list = self._values + [x for x in other]
-        new_intervals = [self.entry_class._cast(x) if not x.entry_class is self.entry_class else x for x in new_list]
+        new_intervals = [entry_class._cast(x) if not x.entry_class is entry_class else x for x in new_list]
         output =  SequenceList(*new_intervals)
         output._sort()
         output._check_no_overlaps()
@@ -233,6 +231,7 @@ class SequenceList(Sequence):
         
         new_values = self + intervals
         self._values = list(new_values)
+        self.entry_class = new_values.entry_class
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 48721d52a689c62183eaeda277f617d92cc24ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 71/76] fix: a textgrid may hold tiers of a lower class without
 those above them

---
 src/aligned_textgrid/aligned_textgrid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 03c078e..710dafc 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -195,12 +195,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
         cloned_class_names = [cl.__name__ for cl in self._cloned_classes]
     
         points = [c for c in unique_classes if issubclass(c, SequencePoint)]
-        tops = [
-            c 
+        tops = list(dict.fromkeys(
+            get_class_hierarchy(c)[0]
             for c in unique_classes 
             if issubclass(c, SequenceInterval)
-            if issubclass(c.superset_class, Top)
-        ]
+        ))
 
         points_clone = []
         for p in points:
-- 
2.43.0


From 7886ab276d9aa42213bb1248c80a84aa957f4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:13 +0000
Subject: [PATCH 72/76] fix: popping a class held by lone tiers only takes it
 out of the hierarchy

---
 src/aligned_textgrid/aligned_textgrid.py | 30 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 710dafc..698fda0 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -681,6 +681,25 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.contains = self.tier_groups
         self._set_group_names()
 
+    def _unlink_class(
+            self,
+            entry_class: type[SequenceInterval]
+        )->None:
+        """Link the classes above and below a class to each other
+
+        Args:
+            entry_class (type[SequenceInterval]):
+                The class to take out of its hierarchy
+        """
+        super_class = entry_class.superset_class
+        sub_class = entry_class.subset_class
+
+        if not isinstance(super_class, Top):
+            super_class.set_subset_class(sub_class)
+
+        if not isinstance(sub_class, Bottom):
+            sub_class.set_superset_class(super_class)
+
     def pop_class(
             self, 
             name: Type[SequenceInterval]|str
@@ -735,19 +754,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
                         "so it was removed."
                     )
                 )
+                if isinstance(tg, TierGroup):
+                    self._unlink_class(tg[0].entry_class)
                 continue
 
             pop_tier, = [t for t in tg if t.entry_class.__name__ == name]
             keep_tiers = [t for t in tg if t.entry_class.__name__ != name]
 
-            pop_tier_super = pop_tier.entry_class.superset_class
-            pop_tier_sub = pop_tier.entry_class.subset_class
-            
-            if not isinstance(pop_tier_super, Top):
-                pop_tier_super.set_subset_class(pop_tier_sub)
-
-            if not isinstance(pop_tier_sub, Bottom):
-                pop_tier_sub.set_superset_class(pop_tier_super)
+            self._unlink_class(pop_tier.entry_class)
 
             for tier in keep_tiers:
                 tier.superset_class = tier.entry_class.superset_class
-- 
2.43.0


From fd33c5c73f161851b1d3d7ff14f29360db0c9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:03 +0000
Subject: [PATCH 73/76] fix: groups of an interleaved class may be appended to
 the textgrid

---
 src/aligned_textgrid/aligned_textgrid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 698fda0..bbec410 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -639,6 +639,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
+
+        # appended groups find this class by its name
+        self._cloned_classes = [
+            c for c in self._cloned_classes if c.__name__ != new_class.__name__
+        ] + [new_class]
         
         new_tiergoups = []
 
-- 
2.43.0


From 20d3840e2fe62c9d2fbdd31397ea826222c8f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 74/76] fix: a refused SequenceList.concat leaves the times of
 what it was given

---
 src/aligned_textgrid/sequence_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 00e74b5..13e071d 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -222,6 +222,8 @@ class SequenceList(Sequence):
                 SequenceIntervals or SequencePoints
         """
         intervals = SequenceList(*intervals)
+        for interval in intervals:
+            self._entry_class_checker(interval)
 
         increment = 0
         if len(self.ends) > 0:
-- 
2.43.0


From 3115d51fa091e546b79db3825d49fd679319d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 75/76] fix: to_df of an interval that is in no tier gives its
 subset rows

---
 src/aligned_textgrid/outputs/to_dataframe.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index 2d9b18f..6f17d0c 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -49,11 +49,7 @@ def sequence_to_df(
 
     df = pl.DataFrame(out_dict, schema=col_names)
     if sub_df_rows:
-        df = df.with_columns(
-            n=pl.lit(sub_df_rows)
-        ).select(
-            pl.exclude("n").repeat_by("n").explode()
-        )
+        df = df[[0] * sub_df_rows]
         df = pl.concat([df, sub_df], how="horizontal")
 
     if isinstance(obj, SequencePoint) or not with_subset:
-- 
2.43.0


From 12a2507923b5fe81ffb79064d78ecff89d563858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 76/76] fix: get_tierwise does not wrap around at the beginning
 of a tier

---
 src/aligned_textgrid/mixins/mixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..a868c46 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,6 +178,8 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
+            if self.tier_index + idx < 0:
+                raise IndexError("Relative index is before the beginning of the tier.")
             return self.intier[self.tier_index + idx]
         else:
             return None
-- 
2.43.0

