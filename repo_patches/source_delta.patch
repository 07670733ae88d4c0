From a23797d0a4106427d9a497704586b50823f34334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 01/63] fix: Activation + is the logical OR it is documented to
 be

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..0993355 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -722,7 +722,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From 169390cc307d9f19bc8d5161d0fd16035b74fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:40 +0000
Subject: [PATCH 02/63] fix: logical operators on two integer activations keep
 the length

---
 ruleskit/activation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 0993355..effb7e4 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -574,7 +574,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -634,7 +636,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -695,7 +699,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From f71e676766291d7b5d3f750b98dab78137ec4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:46 +0000
Subject: [PATCH 03/63] fix: a taken activation file name is neither fatal nor
 overwritten

---
 ruleskit/activation.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index effb7e4..dd86140 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -309,20 +309,16 @@ class Activation(ABC):
         number = random.randint(*arange)
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                number += 1
-                attempts += 1
-                arange.remove(number)
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        while data.is_file():
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
+            number = random.randint(*arange)
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
         self.data = data
         self.data_format = "file"
-- 
2.43.0


From be5de74c56dcaaafac30fef02ba18fc6e6625940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:52 +0000
Subject: [PATCH 04/63] fix: one-point vectors are not stored as an ambiguous
 compressed array

---
 ruleskit/activation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index dd86140..23228ad 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -379,7 +379,7 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_bitarray:
+            if size_compressed > self._sizeof_bitarray or self.length == 1:
                 self.data = value
                 self.data_format = "bitarray"
             else:
@@ -438,7 +438,7 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_integer:
+            if size_compressed > self._sizeof_integer or self.length == 1:
                 self.data = value
                 self.data_format = "integer"
             else:
@@ -547,7 +547,7 @@ class Activation(ABC):
             thesize = self._sizeof_bitarray
             s = f"Using bitarray activation representation"
             fmt = "bitarray"
-        if thesize > size_compressed:
+        if thesize > size_compressed and self.length > 1:
             logger.debug(f"Using compressed activation representation")
             self.data = compressed
             if dtype == str:
-- 
2.43.0


From b225f23b2d35b30bddcc19060faf216ac71b2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 05/63] fix: containment of activation vectors is not symmetric

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 23228ad..1606bed 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -761,7 +761,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
+        if nones_intersection < other.nones:
             return False
         return True
 
-- 
2.43.0


From 57603aad7d5fd8a164491ff53d521613f80a7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:05 +0000
Subject: [PATCH 06/63] fix: a lasy activation vector knows its length

---
 ruleskit/activation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 1606bed..e21b76a 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -69,7 +69,7 @@ class Activation(ABC):
         self._coverage = None
 
         # Format attributes
-        self.length = None  # Will be set by init methods
+        self._length = None  # Will be set by init methods, or when first needed if the vector is lasy
         self.data = None  # Will be set by init methods
 
         """
@@ -753,6 +753,16 @@ class Activation(ABC):
             del self.data
             self.data = None
 
+    @property
+    def length(self) -> Optional[int]:
+        if self._length is None and self.data_format == "file":
+            self._length = len(self._read(out=False))
+        return self._length
+
+    @length.setter
+    def length(self, value: Optional[int]):
+        self._length = value
+
     def __len__(self):
         """Number of points in the vector"""
         return self.length
-- 
2.43.0


From 27a2e60bb4b73b0c50f28e4a36870219c3c7fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:11 +0000
Subject: [PATCH 07/63] fix: conditions are equal only if features and bounds
 are equal, not whenever hashes collide

---
 ruleskit/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..9c7b6f7 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,9 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, Condition):
+            return False
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From 5276663b3a8f92d02e03b037d9abe00d80cd55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:17 +0000
Subject: [PATCH 08/63] fix: a condition made possible again by its setters is
 not impossible

---
 ruleskit/condition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 9c7b6f7..1fe8598 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,9 +321,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -332,9 +331,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From ff309f5c8c4e4a3947584f166d25f63bdf7204ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:23 +0000
Subject: [PATCH 09/63] fix: bounds given as a string are not truncated to
 integers

---
 ruleskit/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 1fe8598..8d4221e 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,7 +317,7 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = [v if isinstance(v, Number) else float(v) for v in ast.literal_eval(value)]
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -327,7 +327,7 @@ class HyperrectangleCondition(Condition):
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = [v if isinstance(v, Number) else float(v) for v in ast.literal_eval(value)]
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From 0b95a25e5be60343461375741f6ebfc3b59e6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:29 +0000
Subject: [PATCH 10/63] fix: correlation of two rules compares the lengths of
 their activation vectors

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..ee583db 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -526,7 +526,7 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
+        if not len(self._activation) == len(other._activation):
             raise ValueError("Both vectors must have the same length")
 
         sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
-- 
2.43.0


From ce5c5a1853e979ea2210f3f040aead03de660de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:35 +0000
Subject: [PATCH 11/63] fix: thresholds set on one rule apply to this rule

---
 ruleskit/rule.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index ee583db..2d5d1fb 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -86,7 +86,7 @@ class Rule(ABC):
 
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
-        self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._thresholds: Optional[Thresholds] = None  # If None, uses the class' THRESHOLDS
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -113,7 +113,7 @@ class Rule(ABC):
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
 
@@ -128,11 +128,12 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        thresholds = self.thresholds
+        if thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +141,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
@@ -226,7 +227,7 @@ class Rule(ABC):
 
     @property
     def thresholds(self) -> Thresholds:
-        return self._thresholds
+        return self._thresholds if self._thresholds is not None else self.__class__.THRESHOLDS
 
     @property
     def good(self) -> bool:
-- 
2.43.0


From d8b9b844a5763e449e3656cab443e224ccac39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:40 +0000
Subject: [PATCH 12/63] fix: probabilities of string classes are compared as
 numbers

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 2d5d1fb..36c2e04 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -735,7 +735,7 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
-- 
2.43.0


From 4927c3835bb92400fb6efafff4c9c4e0e7eb720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:46 +0000
Subject: [PATCH 13/63] fix: predicted string classes are not truncated

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 36c2e04..2d71d71 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -514,7 +514,7 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
             to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
-- 
2.43.0


From a0875c57c77ad7c02e433516cbe5ee9299a3b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:50 +0000
Subject: [PATCH 14/63] fix: rule prediction on a one-row DataFrame is a Series

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 2d71d71..d965594 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -517,7 +517,7 @@ class Rule(ABC):
             to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From 0e9d32aff7c805f5f10dbfbbcfcf3cbc8e366d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:32 +0000
Subject: [PATCH 15/63] fix: unstacked ruleset regression prediction is the
 mean of the active rules' predictions

---
 ruleskit/utils/rfunctions.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..bc220d1 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -458,16 +458,14 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        prediction_vector = rule.calc_prediction_vector(activation=activation)
+        w = (~prediction_vector.isna()).astype(float) * weights[rulename]
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
+            cum_pred = prediction_vector.fillna(0) * w
+            cum_w = w
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = cum_pred + prediction_vector.fillna(0) * w
+            cum_w = cum_w + w
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
@@ -500,16 +498,14 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        prediction_vector = rule.calc_prediction_vector(activation=activation)
+        w = (~prediction_vector.isna()).astype(float)
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
+            cum_pred = prediction_vector.fillna(0)
+            cum_w = w
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = cum_pred + prediction_vector.fillna(0)
+            cum_w = cum_w + w
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 9e9a6685bc2b1ebdf9c8c98b1602961bc9b1c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:36 +0000
Subject: [PATCH 16/63] fix: more than 255 votes for a class do not wrap around

---
 ruleskit/utils/rfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index bc220d1..1a8f16e 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -558,12 +558,12 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
         if nones == 0:
             continue
         if preds is None:
-            preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
+            preds = pd.DataFrame(index=[rule.prediction], data=[activation.astype(float) * weights[rulename]])
         else:
             if rule.prediction not in preds.index:
-                preds.loc[rule.prediction] = activation * weights[rulename]
+                preds.loc[rule.prediction] = activation.astype(float) * weights[rulename]
             else:
-                preds.loc[rule.prediction] += activation * weights[rulename]
+                preds.loc[rule.prediction] += activation.astype(float) * weights[rulename]
     if preds is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 9e2bbd107cd57bfb6b634296dd953974fc1d9167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 17/63] fix: a classification rule active on no train point has
 no prediction

---
 ruleskit/ruleset.py          | 2 +-
 ruleskit/utils/rfunctions.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..58a1d84 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1092,7 +1092,7 @@ class RuleSet(ABC):
                 class_probabilities = functions.class_probabilities(stacked_activations, y)
                 maxs = class_probabilities.max()
                 return class_probabilities[class_probabilities == maxs].apply(
-                    lambda x: x.dropna().sort_index().index[0]
+                    lambda x: x.dropna().sort_index().index[0] if x.notna().any() else np.nan
                 )
             elif issubclass(self.rule_type, RegressionRule):
                 return functions.conditional_mean(stacked_activations, y)
diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 1a8f16e..552db40 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -37,6 +37,8 @@ def class_probabilities(
         y_conditional = np.extract(activation, y)
         count = Counter(y_conditional)
         n = len(y_conditional)
+        if n == 0:
+            return np.nan
         prop = [v / n for v in count.values()]
         proba = np.array([(c, v) for c, v in zip(count.keys(), prop)])
         proba = proba[proba[:, 0].argsort()]
@@ -555,7 +557,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             activation = activation.raw
         if activation is None:
             continue
-        if nones == 0:
+        if nones == 0 or pd.isna(rule.prediction):
             continue
         if preds is None:
             preds = pd.DataFrame(index=[rule.prediction], data=[activation.astype(float) * weights[rulename]])
-- 
2.43.0


From b782c0f1ad4ff39f383935ebdd5b5d3729f4171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:48 +0000
Subject: [PATCH 18/63] fix: a class can be called 'zero' in stacked mode

---
 ruleskit/utils/rfunctions.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 552db40..915c9a6 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -56,9 +56,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x != 0))
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -400,12 +398,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = activation_vector.apply(lambda x: y.where(x != 0))
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From e1e1795e48e674098f1a0d3837c3118276524a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 19/63] fix: standard deviation of a single activated point is
 0 in stacked mode too

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 915c9a6..9762b5e 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -125,7 +125,7 @@ def conditional_std(
         y_conditional = (
             activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
         )
-        return y_conditional.std()
+        return y_conditional.std().where(activation.sum() != 1, 0)
 
 
 def mse_function(
-- 
2.43.0


From 5f2c291e754a2256a4453e27c6d653fc5ae6ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 20/63] fix: mae_norm is normalized by the mean absolute
 deviation

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 9762b5e..2d2a91a 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -209,7 +209,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From 75657558c84da0cdbbb6620b409ea10d624b9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 21/63] fix: stacked classification prediction stays on its row

---
 ruleskit/utils/rfunctions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 2d2a91a..84a11d5 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -601,11 +601,9 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    if most_freq_pred.empty:
+        return pd.Series(np.nan, index=idx)
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].iloc[:, 0]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From 8c3ed08b43b3f3786dcc2b01acec407a1cee2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:52 +0000
Subject: [PATCH 22/63] fix: evaluating a ruleset that drops rules does not
 zero its activation

---
 ruleskit/ruleset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 58a1d84..0056bda 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -641,8 +641,7 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
-            if self._activation is not None:
-                self._activation.clear()
+            self._activation = None
             self.del_stacked_activations()
             for r in rules:
                 self.append(r, update_activation=False)
-- 
2.43.0


From ad638f55514463837bb5964bf9e81072a0754168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:58 +0000
Subject: [PATCH 23/63] fix: features of dropped rules are not remembered by
 the ruleset

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0056bda..a1762eb 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -437,6 +437,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -641,6 +643,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             self._activation = None
             self.del_stacked_activations()
             for r in rules:
-- 
2.43.0


From a37d1cb54d491b15eeb2d6cbdc5a3b999da43b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:03 +0000
Subject: [PATCH 24/63] fix: stacked fit and eval drop each bad rule, once

---
 ruleskit/ruleset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a1762eb..b34f503 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -425,11 +425,11 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -627,10 +627,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [
                 r.eval(
-- 
2.43.0


From f009d4612c197f08b194d127252e23e1731944f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:09 +0000
Subject: [PATCH 25/63] fix: stacked fit without features computes the ruleset
 activation if needed

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b34f503..4c27dbd 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -453,7 +453,7 @@ class RuleSet(ABC):
                 self.compute_stacked_activation()
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
         # been done  (needed to set self.coverage), but not stacked (useless)
-        elif not self.__class__.STACKED_FIT:
+        elif not self.__class__.STACKED_FIT or xs is None:
             if self._activation is None or self._activation.length == 0 or xs is not None:
                 self._activation = None
                 self.compute_self_activation()
-- 
2.43.0


From e5d2ff9d6aceda02cac44f83657d4c016e89a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 26/63] fix: saved test set size of a ruleset is not its train
 set size

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4c27dbd..deb731c 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -976,7 +976,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From 9b63b509e6369fe1fdbfde821c6a09346774eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:52 +0000
Subject: [PATCH 27/63] fix: rulesets predicting classes whose name is not a
 python expression can be loaded

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index deb731c..529c9c8 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1037,7 +1037,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From 623d6770b4025c6412beb42050770d5d8484bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:59 +0000
Subject: [PATCH 28/63] fix: rulesets with infinite bounds or attributes can be
 loaded

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 529c9c8..a722d6f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1025,12 +1025,16 @@ class RuleSet(ABC):
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
             if rule_ind in condition_index:
+                if rule_ind in ("bmins", "bmaxs"):
+                    str_value = str_value.replace("inf", "1e999")
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
                     setattr(rule, f"_{rule_ind}", Activation(str_value))
                 elif str_value == "nan":
                     setattr(rule, f"_{rule_ind}", np.nan)
+                elif str_value in ("inf", "-inf"):
+                    setattr(rule, f"_{rule_ind}", float(str_value))
                 elif rule_ind == "sign":
                     setattr(rule, f"_{rule_ind}", str_value)
                 else:
-- 
2.43.0


From 7f5515db7049adc17451845d971a16f91cc6a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:05 +0000
Subject: [PATCH 29/63] fix: coverage and criterion of a loaded ruleset are
 numbers

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a722d6f..625b8b5 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -895,10 +895,10 @@ class RuleSet(ABC):
         else:
             rules = pd.read_csv(path, **kwargs)
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = float(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
-- 
2.43.0


From 9a771745b104276a345153684bc99f8f064920cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:10 +0000
Subject: [PATCH 30/63] fix: loaded rules keep their names and the ruleset its
 features indexes

---
 ruleskit/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 625b8b5..071b0d0 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -930,6 +930,7 @@ class RuleSet(ABC):
         if self.stack_activation:
             self.compute_stacked_activation()
         self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.features_indexes = list(set(traverse([rule.features_indexes for rule in self])))
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
@@ -1020,7 +1021,7 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-- 
2.43.0


From a4d536e1158094b785ce148297ff8aa8185525a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:16 +0000
Subject: [PATCH 31/63] fix: adding a ruleset to another neither shares nor
 forgets stacked activations

---
 ruleskit/ruleset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 071b0d0..6c0016a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -311,12 +311,14 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
+                    self.stacked_activations = other.evaluate_stacked_activations()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat(
+                        [self.stacked_activations, other.evaluate_stacked_activations()], axis=1
+                    )
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From 29d07afb9398e140d2204412e6734e0d0f4ce509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:22 +0000
Subject: [PATCH 32/63] fix: assigning rules to a ruleset sets its rule type

---
 ruleskit/ruleset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6c0016a..8780fd5 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -237,6 +237,8 @@ class RuleSet(ABC):
     def rules(self, rules: Union[List[Rule], None]):
         ruleset = RuleSet(rules, stack_activation=self.stack_activation)
         self._rules = ruleset._rules
+        if ruleset._rule_type is not None:
+            self._rule_type = ruleset._rule_type
         self.features_names = ruleset.features_names
         self.features_indexes = ruleset.features_indexes
         self.stacked_activations = ruleset.stacked_activations
-- 
2.43.0


From a78e81b79af0e25ee88656240dbf2b4f26d0d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:28 +0000
Subject: [PATCH 33/63] fix: a stacking ruleset without activations can be
 sorted

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8780fd5..8948376 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -757,7 +757,7 @@ class RuleSet(ABC):
             self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
-        if self.stack_activation:
+        if self.stack_activation and self.stacked_activations is not None:
             self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
 
     # noinspection PyProtectedMember
-- 
2.43.0


From 5d29c8cd570143c3e4b36998241d130237741813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:35 +0000
Subject: [PATCH 34/63] fix: rules extracted from a tree keep the upper bound
 set by their ancestors

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..249c5e6 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -175,7 +175,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From 3d99f31aa921e21c7ae1a62b4c85bd1dbe022614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 35/63] fix: number of features of a tree is read from
 n_features_in_

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 249c5e6..56e96d3 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,7 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(tree.n_features_in_)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
-- 
2.43.0


From 608c5d5232f45b913c35fd1673f97cd2524c5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:48 +0000
Subject: [PATCH 36/63] fix: rules extracted from the branches of a tree
 predict the value of their branch

---
 ruleskit/utils/rule_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 56e96d3..3e50f4a 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -128,17 +128,18 @@ def extract_rules_from_tree(
             # Create a new Rule with all the condition and append it to the rules
             # list. So the rule list is actually a history of how one rule evolved.
             if get_leaf is False:
+                child = decision_tree.children_left[node]
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[child][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[child][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[child][0][0]
                 rules_list.append(new_rule)
 
             # Execute the current function on the left of the current node
@@ -180,17 +181,18 @@ def extract_rules_from_tree(
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
             if get_leaf is False:
+                child = decision_tree.children_right[node]
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[child][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[child][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[child][0][0]
                 rules_list.append(new_rule)
 
             rules_list = visitor(decision_tree.children_right[node], depth + 1, new_condition, rules_list)
-- 
2.43.0


From 941911d3508793b853cee6c94b10eee8080fcb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 37/63] fix: a good rule is not dropped along with a bad rule
 of equal condition

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8948376..50415b7 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -439,7 +439,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             self.features_names = []
             self.features_indexes = []
@@ -645,7 +645,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             self.features_names = []
             self.features_indexes = []
-- 
2.43.0


From 7b0766f144041da42f25655eaf44acaf2c67af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:13 +0000
Subject: [PATCH 38/63] fix: the length of a lazily opened vector is known once
 its file was read

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index e21b76a..b2c9da6 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -830,6 +830,8 @@ class Activation(ABC):
                 self._sizeof_raw = value.nbytes / 1e6
             if self._nones is None:
                 self._nones = np.count_nonzero(value == 1)
+            if self._length is None:
+                self._length = len(value)
             stat = path.stat()
             if isinstance(stat, dict):
                 self._sizeof_file = stat["st_size"] / 1e6
-- 
2.43.0


From ac2e6c2290fef3bb2394c99f59918ca2f534fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 39/63] fix: sizes of the compressed forms are available for
 vectors kept in files

---
 ruleskit/activation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index b2c9da6..8c3e807 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -1396,6 +1396,8 @@ class Activation(ABC):
             to_ret = self._compress(data, dtype=np.ndarray)
             self._time_raw_to_compressed = time() - t0
             self._n_raw_to_compressed += 1
+            if self._sizeof_compressed_array == -1:
+                self._sizeof_compressed_array = to_ret.nbytes / 1e6
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
         self._entropy = len(to_ret)
@@ -1450,6 +1452,8 @@ class Activation(ABC):
             to_ret = self._compress(data, dtype=str)
             self._time_raw_to_compressed = time() - t0
             self._n_raw_to_compressed += 1
+            if self._sizeof_compressed_str == -1:
+                self._sizeof_compressed_str = sys.getsizeof(to_ret) / 1e6
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
         self._entropy = len(ast.literal_eval(to_ret))
-- 
2.43.0


From 823f79928970e4132203f358af3058068aaaa119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:18 +0000
Subject: [PATCH 40/63] fix: condition setters accepted values of a wrong type,
 or raised halfway and left the condition changed

---
 ruleskit/condition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 8d4221e..b556718 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -66,6 +66,8 @@ class Condition(ABC):
     def features_indexes(self, value: Union[List[int], str]):
         if isinstance(value, str):
             value = ast.literal_eval(value)
+        if any([not np.issubdtype(type(a), np.integer) for a in value]):
+            raise TypeError(f"features_indexes must be integers. You gave {[(f, type(f)) for f in value]}")
         if len(set(value)) != len(value):
             raise DuplicatedFeatures
         if len(self) > 0 and len(self) != len(value):
@@ -308,6 +310,8 @@ class HyperrectangleCondition(Condition):
     def features_names(self, value: Union[List[str], str]):
         if isinstance(value, str):
             value = ast.literal_eval(value)
+        if any([not isinstance(a, str) for a in value]):
+            raise TypeError(f"Names must be strings. You gave {[(f, type(f)) for f in value]}")
         if len(set(value)) != len(value):
             raise DuplicatedFeatures
         if len(self) > 0 and len(self) != len(value):
@@ -318,6 +322,8 @@ class HyperrectangleCondition(Condition):
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
             value = [v if isinstance(v, Number) else float(v) for v in ast.literal_eval(value)]
+        if any([not isinstance(a, Number) for a in value]):
+            raise TypeError(f"bmins must be integers or floats. You gave {[(f, type(f)) for f in value]}")
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -328,6 +334,8 @@ class HyperrectangleCondition(Condition):
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
             value = [v if isinstance(v, Number) else float(v) for v in ast.literal_eval(value)]
+        if any([not isinstance(a, Number) for a in value]):
+            raise TypeError(f"bmaxs must be integers or floats. You gave {[(f, type(f)) for f in value]}")
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From eceec04f108b9efbf2803f717bd333664eb7b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:13 +0000
Subject: [PATCH 41/63] fix: membership of a rule in a rule set depended on how
 its bounds and features were written

---
 ruleskit/ruleset.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 50415b7..0cc5ac4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -203,16 +203,11 @@ class RuleSet(ABC):
     # noinspection PyProtectedMember
     def __contains__(self, other: Rule) -> bool:
         """A RuleSet contains another Rule if the two rule's conditions and predictions are the same"""
-        name_or_index = "name" if len(self.features_names) > 0 else "index"
-
-        if name_or_index == "index":
-            str_rules = [str(r.features_indexes) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_indexes) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-        else:
-            str_rules = [str(r.features_names) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_names) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-
-        return str_rule in str_rules
+        return any(
+            r.condition == other.condition
+            and (r.prediction == other.prediction or str(r.prediction) == str(other.prediction))
+            for r in self
+        )
 
     @property
     def rule_type(self) -> type:
-- 
2.43.0


From 5d93fb91b3a209334d503ab845f9085232046d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:50 +0000
Subject: [PATCH 42/63] fix: thresholds naming another attribute failed when
 its value was a numpy number

---
 ruleskit/thresholds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 2cab835..8b25b0a 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -1,6 +1,7 @@
 import math
 import logging
 from copy import copy
+from numbers import Real
 from typing import Union
 from pathlib import Path
 from json import load
@@ -78,7 +79,7 @@ class Thresholds:
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
-            if not isinstance(threshold[lim], (int, float)):
+            if not isinstance(threshold[lim], Real):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
         if "min" in threshold and value < threshold["min"]:
-- 
2.43.0


From 5963da1b7323d108111f5e63dcf5900538b2ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 43/63] fix: fitting a rule set failed when it dropped rules
 while the set had an empty activation vector

---
 ruleskit/ruleset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0cc5ac4..c9587b6 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -438,8 +438,6 @@ class RuleSet(ABC):
             self._rules = []
             self.features_names = []
             self.features_indexes = []
-            if self._activation is not None:
-                self._activation.clear()
             self.del_stacked_activations()
             for r in rules:
                 self.append(r, update_activation=False)
-- 
2.43.0


From f2f7f3558f97fd92407fa47f06ec5a983faccdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 44/63] fix: criterion of a classification rule set failed when
 no row was predicted

---
 ruleskit/utils/rfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 84a11d5..d566c54 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -320,9 +320,10 @@ def success_rate(
             return np.nan
         return sum(prediction == y) / len(y)
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
-        if len(y) == 0:
-            return pd.Series(dtype=int)
-        return sum(prediction == y) / len(prediction.dropna())
+        predicted = len(prediction.dropna())
+        if predicted == 0:
+            return np.nan
+        return sum(prediction == y) / predicted
     else:
         if not isinstance(y, pd.DataFrame):
             raise TypeError(
-- 
2.43.0


From 8d454d1955d912bfa51bde9bb35af91383dc5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:09 +0000
Subject: [PATCH 45/63] fix: stacked predictions of string classes failed when
 the first rule has no prediction

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c9587b6..9c27cc1 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1293,7 +1293,7 @@ class RuleSet(ABC):
         if stacked_activations is None:
             return None
 
-        if isinstance(self[0].prediction, str):
+        if any(isinstance(r.prediction, str) for r in self):
             prediction_vectors = stacked_activations.replace(0, np.nan).replace(1.0, "") + predictions
         else:
             prediction_vectors = stacked_activations.replace(0, np.nan) * predictions
-- 
2.43.0


From de912eac1238f3f32769cab0e5bfebaf414b7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:06 +0000
Subject: [PATCH 46/63] fix: sorting a rule set failed half-way when its stack
 lacked the column of a rule

---
 ruleskit/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 9c27cc1..5c884fa 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -751,7 +751,9 @@ class RuleSet(ABC):
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
         if self.stack_activation and self.stacked_activations is not None:
-            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
+            self.stacked_activations = self.stacked_activations[
+                [str(r.condition) for r in self if str(r.condition) in self.stacked_activations.columns]
+            ]
 
     # noinspection PyProtectedMember
     def evaluate_self_activation(
-- 
2.43.0


From 5e961f6ef91f534a8a65ab1a51f78d4ffdf034b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:12 +0000
Subject: [PATCH 47/63] fix: a failing append without update left the rule set
 unable to update its activation

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5c884fa..cd4cc3c 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -688,9 +688,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From bd62bfe0293cb2b23ad695bdc2a3f12ffe1632aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:47 +0000
Subject: [PATCH 48/63] fix: loading a rule set altered numbers and labels by
 letting pandas guess the type of the columns

---
 ruleskit/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index cd4cc3c..0482cd6 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -894,7 +894,8 @@ class RuleSet(ABC):
         if hasattr(path, "read"):
             rules = path.read(**kwargs)
         else:
-            rules = pd.read_csv(path, **kwargs)
+            # Do not let pandas guess types : it would round floats, change integers to floats and drop some labels
+            rules = pd.read_csv(path, **{"dtype": str, "keep_default_na": False, "na_values": ["", "nan"], **kwargs})
         if "ruleset coverage" in rules.iloc[:, 0].values:
             self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
-- 
2.43.0


From 55af4c612fbdbc898ff23d07d1fe077fde474c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:13 +0000
Subject: [PATCH 49/63] fix: plain predictions of classification rule sets
 failed when a rule has no activation instead of ignoring it

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d566c54..9683b2a 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -544,7 +544,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if xs is None:
             activation = rule.activation
-            nones = rule.nones
+            nones = None if activation is None else rule.nones
         else:
             activation = rule.evaluate_activation(xs)
             nones = activation.nones
-- 
2.43.0


From 86446cc4afdcf49db01b0d8ad5b9f93166d8d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:08 +0000
Subject: [PATCH 50/63] fix: reading the activation of a rule or rule set after
 discarding it raised instead of giving None

---
 ruleskit/rule.py    | 2 +-
 ruleskit/ruleset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index d965594..9b54338 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -217,7 +217,7 @@ class Rule(ABC):
         np.ndarray
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self._activation and self.activation_available:
             return self._activation.raw
         return None
 
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0482cd6..1cdd5d2 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -275,7 +275,7 @@ class RuleSet(ABC):
         Union[None, np.ndarray]
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self._activation and self.activation_available:
             return self._activation.raw
         return None
 
-- 
2.43.0


From 68e159fb6ae2849c49ab9e4badde9ee1f7282519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 51/63] fix: the coverage of a rule set was lost when its
 activation was discarded

---
 ruleskit/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1cdd5d2..f3eb364 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -822,6 +822,7 @@ class RuleSet(ABC):
         """Deletes the activation vector's data of self, but not the object itself, so any computed attribute remains
         available"""
         if hasattr(self, "_activation") and self._activation is not None:
+            self._coverage = self.ruleset_coverage
             self._activation.delete()
 
     def del_stacked_activations(self):
-- 
2.43.0


From ff15eeb0cbc878ddb441184d2379db9ebf0f42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:19 +0000
Subject: [PATCH 52/63] fix: adding to a rule set without activation or stack
 left it with those of the addition only

---
 ruleskit/ruleset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index f3eb364..0588558 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -291,7 +291,9 @@ class RuleSet(ABC):
     def _update_activation(self, other: Union[Rule, "RuleSet"]):
         """Updates the activation vector of the RuleSet with the activation vector of a new Rule or RuleSet."""
         if other.activation_available:
-            if self._activation is None or self._activation.length == 0:
+            if not self.activation_available and len(self) > (1 if isinstance(other, Rule) else len(other)):
+                self.compute_self_activation()  # Nothing to update : start from all the rules
+            elif not self.activation_available:
                 self._activation = Activation(other.activation, to_file=Rule.LOCAL_ACTIVATION)
             else:
                 self._activation = self._activation | other._activation
@@ -302,7 +304,9 @@ class RuleSet(ABC):
         the stacked activation vectors of another RuleSet."""
         if other.activation_available:
 
-            if self.stacked_activations is None:
+            if self.stacked_activations is None and len(self) > (1 if isinstance(other, Rule) else len(other)):
+                self.compute_stacked_activation()
+            elif self.stacked_activations is None:
                 if isinstance(other, Rule):
                     self.stacked_activations = pd.DataFrame(
                         data=np.array(other.activation).T, columns=[str(other.condition)]
-- 
2.43.0


From e4f23ef0cce1a25a4ee1ef8a981fbe6f475ef5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 53/63] fix: evaluating a classification rule set whose
 activation was discarded raised a TypeError

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0588558..081e474 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1404,7 +1404,7 @@ class RuleSet(ABC):
             if xs is not None:
                 activation = self.evaluate_self_activation(xs=xs).raw
             else:
-                if self._activation is None or self._activation.length == 0:
+                if not self.activation_available:
                     self.compute_self_activation()
                 activation = self.activation
             self.criterion = functions.calc_classification_criterion(activation, predictions, y, **kwargs)
-- 
2.43.0


From 3d60aa5886cb2a2e38df909cb1fa1c9c2c2fe1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:31 +0000
Subject: [PATCH 54/63] fix: an attribute of the condition assigned through its
 rule was kept by the rule instead, and hid that of the condition

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 9b54338..baf0ede 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -270,7 +270,7 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        if item not in self.__dict__ and not hasattr(type(self), item):
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From b878c6c15a0cb0cc0645003615cc9136524f6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:38 +0000
Subject: [PATCH 55/63] fix: stacked_activations_available did not tell whether
 the stacked activations are there

---
 ruleskit/ruleset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 081e474..ebaedd8 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -262,9 +262,7 @@ class RuleSet(ABC):
     @property
     def stacked_activations_available(self) -> bool:
         """Returns True is the RuleSet has its rules' stacked activations."""
-        if self.stack_activation is None or self._activation.length == 0:
-            return False
-        return True
+        return self.stacked_activations is not None
 
     @property
     def activation(self) -> Union[None, np.ndarray]:
-- 
2.43.0


From a94e5a221de2592742b4d5fd5e8d1c0076880919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:46 +0000
Subject: [PATCH 56/63] fix: features of rules without names could not be
 counted

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index ebaedd8..12ce137 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -887,7 +887,7 @@ class RuleSet(ABC):
         if len(self.features_names) > 0:
             var_in = list(itertools.chain(*[rule.features_names for rule in self]))
         else:
-            var_in = list(itertools.chain(*[rule.feautres_indexes for rule in self]))
+            var_in = list(itertools.chain(*[rule.features_indexes for rule in self]))
         count = Counter(var_in)
 
         count = count.most_common()
-- 
2.43.0


From 430188f36e6dd92fae96e9c3a99c054cd7ea6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 57/63] fix: a rule set could not be made of rules without
 features names

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 12ce137..b1e5b54 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -100,7 +100,6 @@ class RuleSet(ABC):
         self._rule_type = None
         self._compute_activation = True  # Should NOT be equal to given compute_activation argument, but always True.
         if rules_list is not None:
-            names_available = all([hasattr(r.condition, "features_names") for r in self])
             for rule in rules_list:
                 if not isinstance(rule, Rule) and rule is not None:
                     raise TypeError(f"Some rules in given iterable were not of type 'Rule' but of type {type(rule)}")
@@ -110,6 +109,7 @@ class RuleSet(ABC):
                 self.compute_self_activation()
             if self.stack_activation:
                 self.compute_stacked_activation()
+            names_available = all([hasattr(r.condition, "features_names") for r in self])
             if names_available:
                 self.features_names = list(set(itertools.chain(*[rule.features_names for rule in self])))
             self.set_features_indexes()
-- 
2.43.0


From f35ade5fdf9584caba7f54f1f362375dddb9850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:01 +0000
Subject: [PATCH 58/63] fix: the stacked z-score of a rule that is never
 activated was 0 instead of NaN

---
 ruleskit/utils/rfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 9683b2a..f116b60 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -612,7 +612,9 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
 def calc_zscore_external(
     prediction: Union[pd.Series, float], nones: Union[pd.Series, int], y: np.ndarray, horizon: int = 1
 ) -> Union[None, float, pd.Series]:
-    if isinstance(nones, int) and nones == 0:
+    if isinstance(nones, pd.Series):
+        nones = nones.replace(0, np.nan)
+    elif nones == 0:
         return np.nan
     num = abs(prediction - np.nanmean(y))
     deno = np.sqrt(horizon / nones) * np.nanstd(y)
-- 
2.43.0


From 4853c7e7cb0832e3c1aaf6f91317234c558ee6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:11 +0000
Subject: [PATCH 59/63] fix: a refused stacked fit or evaluation left the rule
 set stacking its activations

---
 ruleskit/ruleset.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b1e5b54..fcea717 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -384,13 +384,17 @@ class RuleSet(ABC):
             if xs is not None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.calc_activation(xs)
-                self.stack_activation = not clean_activation
+                try:
+                    self.calc_activation(xs)
+                finally:
+                    self.stack_activation = not clean_activation
             elif self.stacked_activations is None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.compute_stacked_activation()
-                self.stack_activation = not clean_activation
+                try:
+                    self.compute_stacked_activation()
+                finally:
+                    self.stack_activation = not clean_activation
 
             if isinstance(y, np.ndarray):
                 # noinspection PyUnresolvedReferences
@@ -547,8 +551,10 @@ class RuleSet(ABC):
                 if keep_new_activations:
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
-                    self.stack_activation = not clean_activation
+                    try:
+                        self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
+                    finally:
+                        self.stack_activation = not clean_activation
                     stacked_activations = self.stacked_activations
                     activation = self._activation
                     # noinspection PyUnresolvedReferences
@@ -567,11 +573,13 @@ class RuleSet(ABC):
                     # Else, will compute the stacked activation from the current rules activations
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.compute_stacked_activation()
-                    self.compute_self_activation()
+                    try:
+                        self.compute_stacked_activation()
+                        self.compute_self_activation()
+                    finally:
+                        self.stack_activation = not clean_activation
                     if self.stacked_activations is None:
                         raise ValueError("Rules activations must have been computed previously.")
-                    self.stack_activation = not clean_activation
                 stacked_activations = self.stacked_activations
                 activation = self._activation
                 # noinspection PyUnresolvedReferences
-- 
2.43.0


From 408c913d59407cf1111f149d779fa5c61b962ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:16 +0000
Subject: [PATCH 60/63] fix: targets of another length than the data were
 accepted by rules and unstacked rule sets

---
 ruleskit/rule.py    | 8 ++++++++
 ruleskit/ruleset.py | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index baf0ede..d5bed23 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -369,6 +369,10 @@ class Rule(ABC):
             logger.warning("Given xs is empty")
             return
 
+        points = xs if xs is not None else self._activation
+        if points is not None and len(points) != len(y):
+            raise ValueError(f"There are {len(points)} points but y has {len(y)}")
+
         self.calc_activation(xs=xs)
 
         for attr in self.__class__.attributes_from_train_set:
@@ -432,6 +436,10 @@ class Rule(ABC):
             logger.warning("Given xs is empty")
             return
 
+        points = xs if xs is not None else self._activation
+        if points is not None and len(points) != len(y):
+            raise ValueError(f"There are {len(points)} points but y has {len(y)}")
+
         if recompute_activation:
             self.calc_activation(xs=xs)
             xs = None
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index fcea717..a1a2711 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -374,6 +374,9 @@ class RuleSet(ABC):
             logger.debug("Ruleset is empty. Nothing to fit.")
             return []
 
+        if xs is not None and len(xs) != len(y):
+            raise ValueError(f"xs has {len(xs)} rows but y has {len(y)}")
+
         if all([r._fitted for r in self]) and xs is None:
             return []
 
@@ -532,6 +535,9 @@ class RuleSet(ABC):
             logger.debug("Ruleset is empty. Nothing to fit.")
             return []
 
+        if xs is not None and len(xs) != len(y):
+            raise ValueError(f"xs has {len(xs)} rows but y has {len(y)}")
+
         if not all([r._fitted for r in self]):
             if xs is None:
                 raise ValueError(
-- 
2.43.0


From cf2e557aced9969d8cfcb8e879da13c8f70b5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 61/63] fix: multi_logical_xor of a single vector returns an
 array when asked for one

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 8c3e807..726297f 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -710,6 +710,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From bbdf8afd64b0d99749efb639389810adf370c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:32 +0000
Subject: [PATCH 62/63] fix: accept the text forms of an activation vector, bit
 string or path

---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 726297f..86cc152 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,7 +204,7 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
+        if type(activation) == str and "," not in activation:
             if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From 31c6d60d47d6058009d1dcb52f70c0086210ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:45 +0000
Subject: [PATCH 63/63] fix: do not learn from all targets when the activation
 of a rule was discarded

---
 ruleskit/rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index d5bed23..9efd1c5 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -641,7 +641,7 @@ class RegressionRule(Rule):
         t0 = time()
         if activation is None:
             activation = self._activation
-            if activation is None:
+            if not self.activation_available:
                 return None
         if not isinstance(activation, Activation):
             raise TypeError("Needs 'Activation' type activation vector")
@@ -672,7 +672,7 @@ class RegressionRule(Rule):
         t0 = time()
         if activation is None:
             activation = self._activation
-            if activation is None:
+            if not self.activation_available:
                 return None
         if not isinstance(activation, Activation):
             raise TypeError("Needs 'Activation' type activation vector")
-- 
2.43.0

