From b413d63f924cedb7dc3dcf4888df29a1566547bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 01/43] fix: drop NA weights in weighted Quantile as documented

---
 metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metrics.py b/metrics.py
index 430ec2e..a4e81b9 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2113,6 +2113,7 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
+      df = df.dropna(subset=[self.weight])
       aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
-- 
2.43.0


From 5e7f598c45f020ecacecec0dc60e5c30fa45a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 02/43] fix: weighted Quantile SQL at quantiles that hit a
 weight exactly

---
 metrics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metrics.py b/metrics.py
index a4e81b9..5e34d58 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2193,10 +2193,10 @@ class Quantile(SimpleMetric):
         LEAD(val) OVER (PARTITION BY split_by ORDER BY val) AS next_value
       FROM QuantileWeights)
     2. For each quantile q, SELECT
-    SUM(IF((prev_weight IS NULL AND q < weight) OR
-             (next_weight IS NULL AND q > weight),
+    SUM(IF((prev_weight IS NULL AND q <= weight) OR
+             (next_weight IS NULL AND q >= weight),
            val,
-           IF(q BETWEEN weight AND next_weight,
+           IF(q >= weight AND q < next_weight,
               (next_value * (q - weight) + (next_weight - q) * val) /
                 (next_weight - weight),
               0))).
@@ -2306,8 +2306,8 @@ class Quantile(SimpleMetric):
       )
       cols.add(
           sql.Column(
-              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
-    IF({q} BETWEEN {w} AND {next_w}, {interp}, 0)))""",
+              f"""SUM(IF(({prev_w} IS NULL AND {q} <= {w}) OR ({next_w} IS NULL AND {q} >= {w}), {v},
+    IF({q} >= {w} AND {q} < {next_w}, {interp}, 0)))""",
               alias=f'{self.weight}-weighted quantile({self.var}, {q})',
           )
       )
-- 
2.43.0


From f4837efd97b4248324945f5d4fe88cc0b09ab553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 03/43] fix: escape SQL aliases that start with a digit

---
 sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 0240477..8be64bb 100644
--- a/sql.py
+++ b/sql.py
@@ -74,7 +74,7 @@ def get_alias(c):
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
   special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
-  if not alias or not special.intersection(alias):
+  if not alias or not (special.intersection(alias) or alias[0].isdigit()):
     return alias
   escape = {c: '_' for c in special}
   escape.update({
-- 
2.43.0


From 5ca4dad8be97a6bc9a4303b7ad6a56d395df6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 04/43] fix: keep index columns of nested operations in
 Distribution SQL

---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index 7cd42d8..4e54ff6 100644
--- a/operations.py
+++ b/operations.py
@@ -261,6 +261,9 @@ class Distribution(Operation):
     for c in child_sql.columns:
       if c.alias in groupby:
         continue
+      if c.alias in indexes.aliases:
+        groupby.add(c.alias)  # An index added by a descendant Operation.
+        continue
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-- 
2.43.0


From 72f2dbf4cefb7dc3bf1a20084f392318b0766843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 05/43] fix: CUPED and PrePostChange in mixed mode with a
 multi-column child

---
 operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index 4e54ff6..1ac53eb 100644
--- a/operations.py
+++ b/operations.py
@@ -811,8 +811,9 @@ class PrePostChange(PercentChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
                   self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_child = count_features(self.children[0][0])
+    covariates = child.iloc[:, len_child:]
+    child = child.iloc[:, :len_child]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1042,8 +1043,9 @@ class CUPED(AbsoluteChange):
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
                                                     mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    len_child = count_features(self.children[0][0])
+    covariates = child.iloc[:, len_child:]
+    child = child.iloc[:, :len_child]
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From 859a14192a2996264accbe2a5a475dc33f20cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 06/43] fix: Entropy SQL with zero shares

---
 diversity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index 8c0916e..edb0dc9 100644
--- a/diversity.py
+++ b/diversity.py
@@ -122,13 +122,14 @@ class Entropy(DiversityBase):
     )
     columns = sql.Columns()
     # For every value column, compute -SUM(val * LOG(val)) which is the entropy.
+    # LOG(0) is an error so zero shares, which contribute 0, are skipped.
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
 
       col = sql.Column(
-          (c.alias, c.alias),
-          '-SUM({} * LOG({}))',
+          (c.alias, c.alias, c.alias),
+          '-SUM(IF({} > 0, {} * LOG({}), 0))',
       )
       col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
-- 
2.43.0


From f114048f364260838a69e14d9a4cfa4cb8a7e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 07/43] fix: CumulativeDistribution with order dropped values
 that are null in one column

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 1ac53eb..6283fbe 100644
--- a/operations.py
+++ b/operations.py
@@ -327,7 +327,7 @@ class CumulativeDistribution(Distribution):
     if self.order:
       order = self.order if self.ascending else reversed(self.order)
       level = None if len(dist.index.names) == 1 else self.extra_index[0]
-      dist = dist.reindex(order, level=level).dropna()
+      dist = dist.reindex(order, level=level).dropna(how='all')
       res = self.group(dist, split_by).cumsum()
     elif not self.sort_by_values:
       dist.sort_values(self.extra_index, ascending=self.ascending, inplace=True)
-- 
2.43.0


From 941cf5000c89ac058ab76d7304513c857ecce8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 08/43] fix: tell metrics with different ops or filters apart
 in the cache

The fingerprint of any CompositeMetric of Sum(x) and Count(x), e.g.
Sum(x) * Count(x), was that of Mean(x) so they shared cached results.
Filters on Sum and Count were dropped from the CacheKey too. Custom
CompositeMetrics with the same name_tmpl but different ops also collided.
---
 metrics.py | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/metrics.py b/metrics.py
index 5e34d58..3b69821 100644
--- a/metrics.py
+++ b/metrics.py
@@ -20,6 +20,7 @@ from __future__ import print_function
 import copy
 import datetime
 import itertools
+import operator
 from typing import Any, Iterable, List, Optional, Sequence, Text, Union
 
 from meterstick import sql
@@ -97,6 +98,10 @@ def to_sql(table, split_by=None):
   return lambda metric: metric.to_sql(table, split_by)
 
 
+def _neg(x, _):
+  return -x
+
+
 # Classes we built so caching across instances can be enabled with confidence.
 BUILT_INS = [
     # Metrics
@@ -956,45 +961,45 @@ class Metric(object):
     return fn(self)
 
   def __add__(self, other):
-    return CompositeMetric(lambda x, y: x + y, '{} + {}', (self, other))
+    return CompositeMetric(operator.add, '{} + {}', (self, other))
 
   def __radd__(self, other):
-    return CompositeMetric(lambda x, y: x + y, '{} + {}', (other, self))
+    return CompositeMetric(operator.add, '{} + {}', (other, self))
 
   def __sub__(self, other):
-    return CompositeMetric(lambda x, y: x - y, '{} - {}', (self, other))
+    return CompositeMetric(operator.sub, '{} - {}', (self, other))
 
   def __rsub__(self, other):
-    return CompositeMetric(lambda x, y: x - y, '{} - {}', (other, self))
+    return CompositeMetric(operator.sub, '{} - {}', (other, self))
 
   def __mul__(self, other):
-    return CompositeMetric(lambda x, y: x * y, '{} * {}', (self, other))
+    return CompositeMetric(operator.mul, '{} * {}', (self, other))
 
   def __rmul__(self, other):
-    return CompositeMetric(lambda x, y: x * y, '{} * {}', (other, self))
+    return CompositeMetric(operator.mul, '{} * {}', (other, self))
 
   def __neg__(self):
-    return CompositeMetric(lambda x, _: -x, '-{}', (self, -1))
+    return CompositeMetric(_neg, '-{}', (self, -1))
 
   def __div__(self, other):
-    return CompositeMetric(lambda x, y: x / y, '{} / {}', (self, other))
+    return CompositeMetric(operator.truediv, '{} / {}', (self, other))
 
   def __truediv__(self, other):
     return self.__div__(other)
 
   def __rdiv__(self, other):
-    return CompositeMetric(lambda x, y: x / y, '{} / {}', (other, self))
+    return CompositeMetric(operator.truediv, '{} / {}', (other, self))
 
   def __rtruediv__(self, other):
     return self.__rdiv__(other)
 
   def __pow__(self, other):
     if isinstance(other, float) and other == 0.5:
-      return CompositeMetric(lambda x, y: x**y, 'sqrt({})', (self, other))
-    return CompositeMetric(lambda x, y: x**y, '{} ^ {}', (self, other))
+      return CompositeMetric(operator.pow, 'sqrt({})', (self, other))
+    return CompositeMetric(operator.pow, '{} ^ {}', (self, other))
 
   def __rpow__(self, other):
-    return CompositeMetric(lambda x, y: x**y, '{} ^ {}', (other, self))
+    return CompositeMetric(operator.pow, '{} ^ {}', (other, self))
 
   def __eq__(self, other):
     if not isinstance(other, type(self)) or not isinstance(self, type(other)):
@@ -1412,7 +1417,7 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl'])
+        additional_fingerprint_attrs=['name_tmpl', 'op'])
     self.op = op
     self.columns = rename_columns
 
@@ -1640,9 +1645,17 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        self.op is operator.truediv
+        and isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and not c.distinct
+        # The filters of the children aren't part of the CacheKey.
+        and not s.where_
+        and not c.where_
+    ):
+      return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
@@ -1655,7 +1668,7 @@ class Ratio(CompositeMetric):
                name: Optional[Text] = None,
                where: Optional[Text] = None):
     super(Ratio, self).__init__(
-        lambda x, y: x / y,
+        operator.truediv,
         '{} / {}', (Sum(numerator), Sum(denominator)),
         where=where)
     self.numerator = numerator
-- 
2.43.0


From be32545ee4efdeefbc38dfd352747a549462a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 09/43] fix: don't modify cached results in-place

Metrics modify the values and column names of the results read from the
cache, so the third use of a multi-column result in a computation was wrong.
---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 3b69821..50a98f2 100644
--- a/metrics.py
+++ b/metrics.py
@@ -360,7 +360,9 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    res = self.cache[key]
+    # The result might be modified in-place afterwards.
+    return res.copy() if isinstance(res, (pd.Series, pd.DataFrame)) else res
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-- 
2.43.0


From 6f888c0972318136adf84cdacf23067816008647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 10/43] fix: a cache_key doesn't inherit the split_by of the
 last computation

Computing a Metric with split_by and then without on the same cache_key and
cache returned the first result again. A falsy cache_key like 0 reused the
last cache_key.
---
 metrics.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index 50a98f2..7af4bc4 100644
--- a/metrics.py
+++ b/metrics.py
@@ -332,7 +332,11 @@ class Metric(object):
     self.cache = {} if cache is None else cache
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
-      key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      if not isinstance(cache_key, utils.CacheKey):
+        # It's the root Metric. Its cache_key might be left over from the last
+        # computation with a cache_key, which could have other split_by.
+        self.cache_key = None
+      key = self.wrap_cache_key(cache_key, split_by)
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
@@ -347,9 +351,10 @@ class Metric(object):
         self.clean_up_cache()
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
-    if key and not isinstance(key, utils.CacheKey) and self.cache_key:
+    if key is None:
+      key = self.cache_key
+    elif not isinstance(key, utils.CacheKey) and self.cache_key:
       key = self.cache_key.replace_key(key)
-    key = key or self.cache_key
     return utils.CacheKey(self, key, where or self.where_, split_by, slice_val)
 
   def save_to_cache(self, key, val, split_by=None):
-- 
2.43.0


From a621d075a414f14a49d8d61ad5c315a3c45adee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 11/43] fix: metrics with different output names don't share
 cached results

The names of the children, name_tmpl of MetricList and rename_columns of
CompositeMetric are in the columns of the cached DataFrame, so the second of
AbsoluteChange(Sum(x, 'a')) and AbsoluteChange(Sum(x, 'b')) in a MetricList
was labelled as the first.
---
 metrics.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index 7af4bc4..200b8f8 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1049,8 +1049,11 @@ class Metric(object):
     if type(self).__name__ not in BUILT_INS and not self.cache_across_instances:
       fingerprint['id'] = id(self)
     if self.children:
+      # The names of the children can end up in the columns of the result.
       fingerprint['children'] = (
-          c.get_fingerprint(attr_to_exclude) if isinstance(c, Metric) else c
+          (c.name, c.get_fingerprint(attr_to_exclude))
+          if isinstance(c, Metric)
+          else c
           for c in self.children
       )
     if self.extra_split_by:
@@ -1129,7 +1132,13 @@ class MetricList(Metric):
       name = children[0].name
     else:
       name = tmpl.format(', '.join(m.name for m in children))
-    super(MetricList, self).__init__(name, children, where, name_tmpl)
+    super(MetricList, self).__init__(
+        name,
+        children,
+        where,
+        name_tmpl,
+        additional_fingerprint_attrs=['name_tmpl'],
+    )
     self.children_return_dataframe = children_return_dataframe
     self.names = [m.name for m in children]
     self.columns = rename_columns
@@ -1424,7 +1433,7 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl', 'op'])
+        additional_fingerprint_attrs=['name_tmpl', 'op', 'columns'])
     self.op = op
     self.columns = rename_columns
 
-- 
2.43.0


From da5663824e622db025bfa133af8587134c0c6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 12/43] fix: leave-one-out results of different data don't
 share cache keys

The results were cached under a key that ignores the user's cache_key so two
DataFrames computed with different cache_keys on the same cache got mixed up.
---
 operations.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/operations.py b/operations.py
index 6283fbe..26f47c8 100644
--- a/operations.py
+++ b/operations.py
@@ -2371,8 +2371,7 @@ class Jackknife(MetricWithCI):
     Returns:
       None. Two additional results are saved to the cache.
       1. The total sum/count, which is each_bucket summed over self.unit.
-      2. The LOO estimates, which is saved under key
-        ('_RESERVED', 'Jackknife', self.unit).
+      2. The LOO estimates, which is saved under self.loo_cache_key().
     """
     if not cache_key.split_by:
       return
@@ -2388,7 +2387,7 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(self.loo_cache_key())
     if not self.in_cache(key):
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
@@ -2398,6 +2397,11 @@ class Jackknife(MetricWithCI):
         loo = loo.reorder_levels(split_by_with_unit)
       self.save_to_cache(key, loo)
 
+  def loo_cache_key(self):
+    """The key of the leave-one-out results on the data of self.cache_key."""
+    key = self.cache_key.key if self.cache_key else None
+    return ('_RESERVED', 'Jackknife', self.unit, key)
+
   def compute_children(
       self,
       df: pd.DataFrame,
@@ -2414,7 +2418,7 @@ class Jackknife(MetricWithCI):
         df,
         split_by + [self.unit],
         True,
-        cache_key=('_RESERVED', 'Jackknife', self.unit),
+        cache_key=self.loo_cache_key(),
     )
     return [replicates.unstack(self.unit)]
 
@@ -2430,7 +2434,7 @@ class Jackknife(MetricWithCI):
       return_cache_key: If to return a cache key.
 
     Yields:
-      ('_RESERVED', 'Jackknife', unit, i) if return_cache_key else None, and the
+      self.loo_cache_key() + (i,) if return_cache_key else None, and the
       leave-i-out DataFrame.
     """
     levels = df[self.unit].unique()
@@ -2439,7 +2443,7 @@ class Jackknife(MetricWithCI):
 
     if not split_by:
       for lvl in levels:
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
+        key = self.loo_cache_key() + (lvl,)
         yield key if return_cache_key else None, df[df[self.unit] != lvl]
     else:
       df = df.set_index(split_by)
@@ -2450,7 +2454,7 @@ class Jackknife(MetricWithCI):
         if len(unique_slice_val) != max_slices:
           # Keep only the slices that appeared in the dropped bucket.
           df_rest = df_rest[df_rest.index.isin(unique_slice_val)]
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
+        key = self.loo_cache_key() + (lvl,)
         yield key if return_cache_key else None, df_rest.reset_index()
 
   @staticmethod
@@ -2483,7 +2487,7 @@ class Jackknife(MetricWithCI):
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
-        key = ('_RESERVED', 'Jackknife', self.unit, unit)
+        key = self.loo_cache_key() + (unit,)
         loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
                                      key)
         # If a slice doesn't have the unit in the input data, we should exclude
@@ -2504,7 +2508,7 @@ class Jackknife(MetricWithCI):
             ).join(table, on='meterstick_resample_idx != %s' % self.unit),
             self.where_,
         )
-        key = ('_RESERVED', 'Jackknife', self.unit, tuple(units))
+        key = self.loo_cache_key() + (tuple(units),)
         loo = self.compute_child_sql(
             loo,
             split_by + ['meterstick_resample_idx'],
-- 
2.43.0


From 276f354afb48f8b50d683928f173a2f811a30515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 13/43] fix: Jackknife doesn't add up cached distinct counts

---
 operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 26f47c8..8620829 100644
--- a/operations.py
+++ b/operations.py
@@ -2336,7 +2336,11 @@ class Jackknife(MetricWithCI):
         self.find_all_in_cache_by_metric_type(metric=metrics.Count)
     )
     precomputed = {
-        k: v for k, v in precomputed.items() if k.key == self.cache_key.key
+        k: v
+        for k, v in precomputed.items()
+        # Distinct counts are not additive.
+        if k.key == self.cache_key.key
+        and not getattr(k.metric, 'distinct', False)
     }
     all_split_by = (
         split_by
-- 
2.43.0


From 9bd1f8243dae86d5966234a2c5faf2f891d15e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 14/43] fix: bootstraps of different units don't share cached
 samples

A sample was cached by the units or weights drawn only, so the samples of
Bootstrap('unit1', ...) and Bootstrap('unit2', ...) in a MetricList, or of
different DataFrames on the same cache, could be mistaken for each other.
---
 operations.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operations.py b/operations.py
index 8620829..0e056f4 100644
--- a/operations.py
+++ b/operations.py
@@ -1801,6 +1801,15 @@ class MetricWithCI(Operation):
           # If samples are unlikely to repeat, don't save res to self.cache.
           res = self.children[0].compute_on(sample, split_by, melted=True)
         else:
+          # Samples from other resamplings or data might have the same key.
+          data_key = self.cache_key.key if self.cache_key else None
+          cache_key = (
+              '_RESERVED',
+              self.__class__,
+              self.unit,
+              data_key,
+              cache_key,
+          )
           res = self.compute_child(
               sample, split_by, melted=True, cache_key=cache_key
           )
-- 
2.43.0


From d04afdd03de35f12eb25e08f2d567fe0bcfa9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 15/43] fix: dividing by a distinct count of 0 gives inf

Count(distinct=True) returned an int when there is no split_by so the division
raised a ZeroDivisionError.
---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 200b8f8..bda40ea 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1758,7 +1758,9 @@ class Count(SimpleMetric):
 
   def compute_slices(self, df, split_by=None):
     grped = self.group(df, split_by)[self.var]
-    return grped.nunique() if self.distinct else grped.count()
+    res = grped.nunique() if self.distinct else grped.count()
+    # Series.nunique() returns an int, which doesn't follow the IEEE arithmetic.
+    return np.int64(res) if isinstance(res, int) else res
 
   def get_sql_columns(self, local_filter):
     if self.distinct:
-- 
2.43.0


From d2ca859342bfa8a7f70e4f1e7b2a935b2dae3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 16/43] fix: raise integers to negative powers in
 CompositeMetric

---
 metrics.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index bda40ea..b893741 100644
--- a/metrics.py
+++ b/metrics.py
@@ -102,6 +102,14 @@ def _neg(x, _):
   return -x
 
 
+def _pow(x, y):
+  try:
+    return x**y
+  except ValueError:
+    # Numpy doesn't allow integers to negative integer powers.
+    return x ** (y * 1.0)
+
+
 # Classes we built so caching across instances can be enabled with confidence.
 BUILT_INS = [
     # Metrics
@@ -1002,11 +1010,11 @@ class Metric(object):
 
   def __pow__(self, other):
     if isinstance(other, float) and other == 0.5:
-      return CompositeMetric(operator.pow, 'sqrt({})', (self, other))
-    return CompositeMetric(operator.pow, '{} ^ {}', (self, other))
+      return CompositeMetric(_pow, 'sqrt({})', (self, other))
+    return CompositeMetric(_pow, '{} ^ {}', (self, other))
 
   def __rpow__(self, other):
-    return CompositeMetric(operator.pow, '{} ^ {}', (other, self))
+    return CompositeMetric(_pow, '{} ^ {}', (other, self))
 
   def __eq__(self, other):
     if not isinstance(other, type(self)) or not isinstance(self, type(other)):
-- 
2.43.0


From 7364e164da5b50b0fc6a095ee212f3e1d7b47590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 17/43] fix: a MetricList without split_by broadcasts to a
 multi-column Operation

---
 metrics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metrics.py b/metrics.py
index b893741..2b86cf6 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1510,6 +1510,13 @@ class CompositeMetric(Metric):
         ]
         a.columns = columns
         b.columns = columns
+        # Without split_by the result of a MetricList is one row without index,
+        # which broadcasts to the rows of an Operation like a number does.
+        a_index, b_index = list(a.index.names), list(b.index.names)
+        if len(a) == 1 and a_index == [None] and b_index != [None]:
+          a = a.iloc[0]
+        elif len(b) == 1 and b_index == [None] and a_index != [None]:
+          b = b.iloc[0]
     elif isinstance(a, pd.DataFrame):
       for i in range(len(a.columns)):
         a.iloc[:, i] = self.op(a.iloc[:, i], b)
-- 
2.43.0


From 51e1d64ef5313b82f7c57ea32fc38352fc11720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 18/43] fix: filters on Jackknife and on its child have
 different replicates

Both had the same cache key in a MetricList, though only the former drops
units from the leave-one-out replicates.
---
 operations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 0e056f4..4fc140e 100644
--- a/operations.py
+++ b/operations.py
@@ -2412,8 +2412,14 @@ class Jackknife(MetricWithCI):
 
   def loo_cache_key(self):
     """The key of the leave-one-out results on the data of self.cache_key."""
-    key = self.cache_key.key if self.cache_key else None
-    return ('_RESERVED', 'Jackknife', self.unit, key)
+    key, where = None, ()
+    if self.cache_key:
+      key = self.cache_key.key
+      # The filters on the Jackknife can drop units while those on the child
+      # can't, so Jackknife(unit, Sum(x), where=foo) has different replicates
+      # from Jackknife(unit, Sum(x, where=foo)).
+      where = tuple(sorted(self.cache_key.where))
+    return ('_RESERVED', 'Jackknife', self.unit, key, where)
 
   def compute_children(
       self,
-- 
2.43.0


From e3c1f2bc8d8c8d30bfc5d3943d7b53a6618283a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 19/43] fix: don't mix up CacheKeys with the same hash

hash(-1) == hash(-2) so Sum(x) * -1 and Sum(x) * -2, or Nth(x, -1) and
Nth(x, -2), shared cached results in a MetricList.
---
 utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils.py b/utils.py
index a7c29d5..9038076 100644
--- a/utils.py
+++ b/utils.py
@@ -402,17 +402,25 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    # Different values can have the same hash, for example, -1 and -2.
+    return (
+        isinstance(other, CacheKey)
+        and hash(self) == hash(other)
+        and self._as_tuple() == other._as_tuple()
+    )
 
   def __hash__(self):
-    return hash((
+    return hash(self._as_tuple())
+
+  def _as_tuple(self):
+    return (
         self.fingerprint['metric'],
         self.fingerprint['key'],
         self.fingerprint['split_by'],
         self.fingerprint['slice_val'],
         self.fingerprint['where'],
         self.fingerprint['extra_info'],
-    ))
+    )
 
   def __repr__(self):
     return (
-- 
2.43.0


From e2b478dc95c2ce1071472fa31f7cc332b9bba40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 20/43] fix: Jackknife without any valid replicate gives null
 standard errors

---
 operations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 4fc140e..8607d72 100644
--- a/operations.py
+++ b/operations.py
@@ -1774,7 +1774,14 @@ class MetricWithCI(Operation):
       cache_key=None,
   ):
     del melted, return_dataframe, cache_key  # unused
-    return self.compute_on_samples(self.get_samples(df, split_by), split_by)
+    estimates = self.compute_on_samples(
+        self.get_samples(df, split_by), split_by
+    )
+    if all(e.empty for e in estimates):
+      # There is no valid replicate so the standard errors are all null.
+      point_est = self.compute_point_estimate(df, split_by)
+      estimates = [pd.DataFrame(np.nan, point_est.index, point_est.columns)]
+    return estimates
 
   def get_samples(self, df, split_by=None):
     raise NotImplementedError
-- 
2.43.0


From 6c12c674cbb270cc00c0357577ba90b6abce742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 21/43] fix: Jackknife with null units dropped their rows from
 the point estimate

---
 operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 8607d72..69f6ca3 100644
--- a/operations.py
+++ b/operations.py
@@ -2342,6 +2342,11 @@ class Jackknife(MetricWithCI):
     """
     if not self.can_precompute():
       return super(Jackknife, self).compute_slices(df, split_by)
+    if df[self.unit].isna().any():
+      # Rows without a unit are in the total but in no bucket.
+      util = copy.deepcopy(self)
+      util.enable_optimization = False
+      return self.compute_util_metric_on(util, df, split_by)
     if self != utils.get_fully_expanded_equivalent_metric_tree(self)[0]:
       util, df = utils.get_fully_expanded_equivalent_metric_tree(self, df)
       return self.compute_util_metric_on(util, df, split_by)
@@ -2463,7 +2468,7 @@ class Jackknife(MetricWithCI):
       self.loo_cache_key() + (i,) if return_cache_key else None, and the
       leave-i-out DataFrame.
     """
-    levels = df[self.unit].unique()
+    levels = df[self.unit].dropna().unique()
     if len(levels) < 2:
       raise ValueError('Too few %s to jackknife.' % self.unit)
 
-- 
2.43.0


From 4bce7f782b59ad4376a60d40f132e26e93222417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 22/43] fix: filters with & and | had the same alias so shared
 a preaggregated column

---
 sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql.py b/sql.py
index 8be64bb..061ec3d 100644
--- a/sql.py
+++ b/sql.py
@@ -79,6 +79,9 @@ def escape_alias(alias):
   escape = {c: '_' for c in special}
   escape.update({
       '!': '_not_',
+      '~': '_tilde_',
+      '&': '_and_',
+      '|': '_or_',
       '$': '_macro_',
       '@': '_at_',
       '%': '_pct_',
-- 
2.43.0


From 9e2a11087f8ea6869839ea065e2298a00366ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 23/43] fix: Jackknife and Bootstrap failed on a frame whose
 only column is the unit

---
 operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index 69f6ca3..ad5e59d 100644
--- a/operations.py
+++ b/operations.py
@@ -2368,7 +2368,7 @@ class Jackknife(MetricWithCI):
         + [self.unit]
         + list(utils.get_extra_split_by(self, return_superset=True))
     )
-    df_slices = df.groupby(all_split_by, observed=True).first().iloc[:, [0]]
+    df_slices = df.groupby(all_split_by, observed=True).size().to_frame()
     for key, each_bucket in precomputed.items():
       self.precompute_sum_or_count_for_jackknife(
           key, each_bucket, split_by, df_slices
@@ -2714,7 +2714,7 @@ class Bootstrap(MetricWithCI):
       grped = df.groupby(grp_by, observed=True)
       idx = grped.indices
       n_units = len(idx)
-      units_df = grped.first().iloc[:, [0]]
+      units_df = grped.size().to_frame()
       units_grped = self.group(units_df, split_by)
       use_cache = np.log(self.n_replicates) / n_units > np.log(n_units)
       sampled = set()
@@ -3184,7 +3184,7 @@ def get_preaggregated_data(m, df, split_by):
       + ([m.unit] if m.unit else [])
       + list(utils.get_extra_split_by(m, return_superset=True))
   )
-  original_idx = df.groupby(all_split_by, observed=True).first().iloc[:, [0]]
+  original_idx = df.groupby(all_split_by, observed=True).size()
   filter_in_leaf = utils.push_filters_to_leaf(m)
   leafs = metrics.MetricList(tuple(set(utils.get_leaf_metrics(filter_in_leaf))))
   preagg_df = m.compute_util_metric_on(leafs, df, all_split_by)
-- 
2.43.0


From 187898e142a2f2bd09f1a5cec1287125ec922ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 24/43] fix: Bootstrap with null units dropped their rows from
 the point estimate

---
 operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.py b/operations.py
index ad5e59d..b6d4ae6 100644
--- a/operations.py
+++ b/operations.py
@@ -2692,6 +2692,11 @@ class Bootstrap(MetricWithCI):
     """
     if self.has_been_preaggregated or not self.can_precompute():
       return super(Bootstrap, self).compute_slices(df, split_by)
+    if df[self.unit].isna().any():
+      # Rows without a unit are in the point estimate but in no unit.
+      util = copy.deepcopy(self)
+      util.enable_optimization = False
+      return self.compute_util_metric_on(util, df, split_by)
     if self != utils.get_fully_expanded_equivalent_metric_tree(self)[0]:
       util, df = utils.get_fully_expanded_equivalent_metric_tree(self, df)
       return self.compute_util_metric_on(util, df, split_by)
-- 
2.43.0


From 55c8a32dd6902ad7e3a8dd63c03c413d4224dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 25/43] fix: display hid an experiment id of 0

---
 confidence_interval_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..7dc536f 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -442,7 +442,7 @@ def dimension_formatter(x,
   d = []
   if description:
     d.append(span(description, 'ci-display-description-text'))
-  if expr_id:
+  if expr_id is not None and expr_id != '':  # The id could be 0.
     d.append(span(expr_id, 'ci-display-experiment-id'))
   if slice_info:
     d.append(span(slice_info, 'ci-display-dimension'))
-- 
2.43.0


From bd225cf61b7e0c3cb2eae0dcbc613e20fd7f0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 26/43] fix: display_expr_info showed N/A as Control_Id, and
 metric_order dropped it

---
 confidence_interval_display.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 7dc536f..5e65014 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -475,7 +475,9 @@ def _get_formatter(df,
   """
   custom_formatter = {}
   for i, col in enumerate(df.columns):
-    if col in dims + ['Experiment_Id', 'Is_Control', 'Description']:
+    if col in dims + [
+        'Control_Id', 'Experiment_Id', 'Is_Control', 'Description'
+    ]:
       custom_formatter[i] = '<div>{}</div>'.format
     elif col == 'Dimensions':
       custom_formatter[i] = dimension_formatter
@@ -715,7 +717,7 @@ def get_formatted_df(
   if metric_order:
     # Sort metric order based on the given argument or default metric order.
     columns = ['Dimensions'] if aggregate_dimensions else dims[:]
-    columns += ['Experiment_Id', 'Is_Control', 'Description']
+    columns += ['Control_Id', 'Experiment_Id', 'Is_Control', 'Description']
     columns += list(metric_order)
     # Column names are not always the same type.
     column_order = pd.array([c for c in columns if c in formatted_df],
-- 
2.43.0


From 460c0e8f5ce0ff0b01b51ca757362ec345c412e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 27/43] fix: display changed the caller's sort_by

---
 confidence_interval_display.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 5e65014..2547586 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -698,9 +698,10 @@ def get_formatted_df(
     for i, d in enumerate(dims):
       col_rename[d] = 'Dim_%s' % (i + 1)
     dims = ['Dim_%s' % i for i in range(1, len(dims) + 1)]
-  sort_by = sort_by or []
-  for s in sort_by:
-    s['column'] = col_rename.get(s['column'], s['column'])
+  sort_by = [
+      dict(s, column=col_rename.get(s['column'], s['column']))
+      for s in sort_by or []
+  ]
   df_renamed = df.rename(columns=col_rename)
   formatted_df = _pre_aggregate_df(
       df_renamed,
-- 
2.43.0


From ab1c41b267b31c4b9c714154afc5c494a65b30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 28/43] fix: display sorted by an order of the only dimension
 had a bogus column

---
 confidence_interval_display.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 2547586..5b96891 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -169,9 +169,11 @@ def _sorted_long_to_wide(df, dims, sort_by):
         if col in df:
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
         else:
+          # With a single level, reset_index() leaves no level to append to.
+          append = df.index.nlevels > 1
           df.reset_index(col, inplace=True)
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
-          df.set_index(col, append=True, inplace=True)
+          df.set_index(col, append=append, inplace=True)
   if sorting_cols:
     df = df.sort_values(sorting_cols, ascending=ascending)
   # Collects [Value, Ratio, CI_Lower, CI_Upper] for each Metric * slice. val_col
-- 
2.43.0


From 5a79791ad986a08712406612d775237582f01505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 29/43] fix: auto_decide_control_vals took inconsistent control
 values, or failed on them

---
 confidence_interval_display.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 5b96891..005125b 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -503,7 +503,7 @@ def add_control_rows(df, dims):
       'Control_Value'
   ]
   control_vals = grp.agg(['max', 'min'])
-  thresh = 1**-5
+  thresh = 1e-5
   ambiguous_vals = control_vals[control_vals['max'] -
                                 control_vals['min'] > thresh]
   msg = ('Warning: Metric "%s" of control %s in slice %s has inconsistent '
@@ -514,9 +514,10 @@ def add_control_rows(df, dims):
                             control_vals['min'] < thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From 27e095b7a68fd9c8665c7992c830f0373e1ad706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 30/43] fix: CUPED and PrePostChange without strata and
 split_by failed

---
 operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index b6d4ae6..8f9294b 100644
--- a/operations.py
+++ b/operations.py
@@ -764,7 +764,8 @@ class PrePostChange(PercentChange):
     else:
       covariates = covariates - covariates.mean()
     # Align child with covariates in case there is any missing slices.
-    covariates = covariates.reorder_levels(child.index.names)
+    if child.index.nlevels > 1:
+      covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
@@ -996,7 +997,8 @@ class CUPED(AbsoluteChange):
     else:
       covariates = covariates - covariates.mean()
     # Align child with covariates in case there is any missing slices.
-    covariates = covariates.reorder_levels(child.index.names)
+    if child.index.nlevels > 1:
+      covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
-- 
2.43.0


From 5cdc64561a8c6570f3e55d4c2da8ac049a8a7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 31/43] fix: CUPED and PrePostChange failed when a covariate
 had the name of the child

---
 operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operations.py b/operations.py
index 8f9294b..97535d7 100644
--- a/operations.py
+++ b/operations.py
@@ -763,6 +763,8 @@ class PrePostChange(PercentChange):
       )
     else:
       covariates = covariates - covariates.mean()
+    # The covariates might have the same names as the child.
+    covariates.columns = [f'covariate {i}' for i in range(covariates.shape[1])]
     # Align child with covariates in case there is any missing slices.
     if child.index.nlevels > 1:
       covariates = covariates.reorder_levels(child.index.names)
@@ -996,6 +998,8 @@ class CUPED(AbsoluteChange):
       )
     else:
       covariates = covariates - covariates.mean()
+    # The covariates might have the same names as the child.
+    covariates.columns = [f'covariate {i}' for i in range(covariates.shape[1])]
     # Align child with covariates in case there is any missing slices.
     if child.index.nlevels > 1:
       covariates = covariates.reorder_levels(child.index.names)
-- 
2.43.0


From c3e41d83800b4f6e9d35b6daa7b13bdb82513ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 32/43] fix: magic mode of penalised models returned complex
 coefficients

np.linalg.eigvals returns complex numbers in newer numpy. X'X is symmetric so
eigvalsh applies.
---
 models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 80ba026..2c36f8e 100644
--- a/models.py
+++ b/models.py
@@ -864,7 +864,7 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvals(x_t_x).max()
+  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -1308,7 +1308,7 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvals(x_t_x).max()
+    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From c5964b4420bb3aaead8e3fd65d0f1bdd3c7a7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 33/43] fix: LogisticRegression magic mode with a split_by that
 is an expression

The slices were selected from the CTE by the raw expression, whose columns
are not available there, instead of by its alias.
---
 models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/models.py b/models.py
index 2c36f8e..e297c98 100644
--- a/models.py
+++ b/models.py
@@ -1073,7 +1073,13 @@ class LogisticRegression(Model):
     conds = []
     if split_by:
       slices = execute(
-          str(sql.Sql(sql.Columns(split_by, True), table, with_data=with_data))
+          str(
+              sql.Sql(
+                  sql.Columns(sql.Columns(split_by).aliases, True),
+                  table,
+                  with_data=with_data,
+              )
+          )
       )
       slices.sort_values(list(slices.columns), inplace=True)
       conds = slices.values
-- 
2.43.0


From 365d5102d07f17f0b0579a00663232b9686f1bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 34/43] fix: escape values put in SQL string literals

Slice values read from the data (magic LogisticRegression), units of
Jackknife and user-given baselines were pasted between double quotes, so a
quote or a backslash in a value broke the query or changed its meaning.
---
 models.py     | 4 +++-
 operations.py | 4 ++--
 sql.py        | 6 ++++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/models.py b/models.py
index e297c98..10fd7dd 100644
--- a/models.py
+++ b/models.py
@@ -1125,7 +1125,9 @@ class LogisticRegression(Model):
         for cond, slice_coef, done in zip(conds, coef, converged):
           if not done:
             condition = [
-                f'{c} = "{v}"' if isinstance(v, str) else f'{c} = {v}'
+                f'{c} = {sql.string_literal(v)}'
+                if isinstance(v, str)
+                else f'{c} = {v}'
                 for c, v in zip(split_cols, cond)
             ]
             condition = ' AND '.join(condition)
diff --git a/operations.py b/operations.py
index 97535d7..36de530 100644
--- a/operations.py
+++ b/operations.py
@@ -410,7 +410,7 @@ class CumulativeDistribution(Distribution):
 
 def _format_to_condition(val):
   if isinstance(val, str) and not val.startswith('$'):
-    return '"%s"' % val
+    return sql.string_literal(val)
   return '%s' % val
 
 
@@ -2520,7 +2520,7 @@ class Jackknife(MetricWithCI):
       loo_sql = sql.Sql(None, table, where=self.where_)
       where = copy.deepcopy(loo_sql.where)
       for unit in unique_units:
-        loo_where = '%s != "%s"' % (self.unit, unit)
+        loo_where = '%s != %s' % (self.unit, sql.string_literal(unit))
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
diff --git a/sql.py b/sql.py
index 061ec3d..0e2250a 100644
--- a/sql.py
+++ b/sql.py
@@ -67,6 +67,12 @@ def add_suffix(alias):
     return alias + '_1'
 
 
+def string_literal(val):
+  """Quotes val so that special characters in it don't end the SQL string."""
+  val = str(val).replace('\\', '\\\\').replace('"', '\\"')
+  return '"%s"' % val.replace('\n', '\\n').replace('\r', '\\r')
+
+
 def get_alias(c):
   return getattr(c, 'alias_raw', c)
 
-- 
2.43.0


From 1c412e3bbd819b7d2fee9c098ba4965b5363cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:31 +0000
Subject: [PATCH 35/43] fix: Jackknife SQL lost the replicates of units whose
 values are all null

total - NULL is NULL in the leave-one-out table, so the replicate was dropped
when there was neither a filter nor an operation in the child.
---
 operations.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/operations.py b/operations.py
index 36de530..2fef8b0 100644
--- a/operations.py
+++ b/operations.py
@@ -2122,8 +2122,6 @@ class MetricWithCI(Operation):
       # When each unit only has one row after preaggregation, we sample by rows.
       if not utils.get_extra_split_by(equiv, return_superset=True):
         equiv.unit = None
-    else:
-      equiv.has_local_filter = any([l.where for l in leaf])
     return equiv.to_sql(preagg, split_by)
 
   def get_sql_and_with_clause(
@@ -3430,10 +3428,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3467,13 +3462,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3524,7 +3515,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3558,8 +3548,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3570,10 +3558,9 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # A unit might have no value, because it isn't in the slice or in the filter,
+  # or because all its values are null.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3591,7 +3578,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From 1fafca9ea4231721f23b236d888f2f9509e9b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 36/43] fix: mixed mode of Jackknife SQL when leave-one-out
 data miss the baseline or are all empty

---
 operations.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index 2fef8b0..b4dd68e 100644
--- a/operations.py
+++ b/operations.py
@@ -2058,9 +2058,12 @@ class MetricWithCI(Operation):
     replicates = self.compute_children_sql(
         table, split_by, execute, mode, batch_size
     )
-    std = self.compute_on_children(replicates, split_by)
     point_est = self.compute_child_sql(
         table, split_by, execute, True, mode=mode)
+    if all(e.empty for e in replicates):
+      # There is no valid replicate so the standard errors are all null.
+      replicates = [pd.DataFrame(np.nan, point_est.index, point_est.columns)]
+    std = self.compute_on_children(replicates, split_by)
     res = point_est.join(utils.melt(std))
     if self.confidence:
       res[self.prefix +
@@ -2523,8 +2526,16 @@ class Jackknife(MetricWithCI):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
         key = self.loo_cache_key() + (unit,)
-        loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
-                                     key)
+        try:
+          loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
+                                       key)
+        except KeyError as e:  # For example, there is no baseline.
+          print(
+              'Warning: Failed on%s sample data for reason %s. If you see many '
+              'such failures, your data might be too sparse.'
+              % (self.name_tmpl.format(''), repr(e))
+          )
+          continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-- 
2.43.0


From 1e1e6c0096d4ecda0a1d08ab8cedf3523f0a474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 37/43] fix: PoissonBootstrap SQL scaled condition columns
 named like sum_* or count_*

---
 operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index b4dd68e..22761a3 100644
--- a/operations.py
+++ b/operations.py
@@ -3043,6 +3043,7 @@ class PoissonBootstrap(Bootstrap):
     """
     del indexes  # unused
     if self.has_been_preaggregated:
+      preagg_groupby = with_data[table].groupby.aliases
       uniform_columns = sql.Columns(with_data[table].all_columns.aliases).add(
           'meterstick_resample_idx'
       )
@@ -3138,7 +3139,7 @@ class PoissonBootstrap(Bootstrap):
       for c in poisson_weight_columns:
         if c.alias == 'poisson_bootstrap_weight':
           continue
-        elif c.alias in split_by.aliases or not (
+        elif c.alias in preagg_groupby or not (
             c.alias.startswith('sum_') or c.alias.startswith('count_')
         ):
           poisson_sampled_columns.add(c.alias)
-- 
2.43.0


From cad53cf7259c428cd858131f52141622ef21908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 38/43] fix: PoissonBootstrap SQL gave different units the same
 weights when their concatenated ids agree

---
 operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 22761a3..b5f7a75 100644
--- a/operations.py
+++ b/operations.py
@@ -2961,7 +2961,7 @@ class PoissonBootstrap(Bootstrap):
     because the table has been preaggregated, then we explicitly SELECT those
     columns instead of using '*'. Second, RAND() is used when sampling by row.
     When we need to sample by groups, we use
-    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING),
+    FARM_FINGERPRINT(CONCAT(CAST(grp AS STRING), ",",
       CAST(meterstick_resample_idx AS STRING)))
       / 0xFFFFFFFFFFFFFFFF + 0.5
     to get the uniformly distributed random variable. The hashing makes sure
@@ -3061,7 +3061,8 @@ class PoissonBootstrap(Bootstrap):
         else split_by.original_columns
     )
     if self.unit:
-      cols = ', '.join(
+      # The separator makes the concatenation of different values different.
+      cols = ', ",", '.join(
           map(
               'CAST({} AS STRING)'.format,
               (split_by_cols or []) + [self.unit, 'meterstick_resample_idx'],
-- 
2.43.0


From 14e7bcfa4314859c2b8121b7f773d8822afa52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 39/43] fix: mixed mode of PoissonBootstrap SQL repeated the
 same replicates in every batch

---
 operations.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/operations.py b/operations.py
index b5f7a75..b5b7499 100644
--- a/operations.py
+++ b/operations.py
@@ -2664,6 +2664,8 @@ class Bootstrap(MetricWithCI):
         **kwargs,
     )
     self.n_replicates = n_replicates
+    # The resamples of PoissonBootstrap in SQL are determined by their indexes.
+    self.first_replicate = 1
 
   def compute_slices(self, df, split_by=None):
     """Computes Bootstrap with unit with precomputation when possible.
@@ -2757,38 +2759,23 @@ class Bootstrap(MetricWithCI):
     batch_size = batch_size or 1000
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-    util_metric.n_replicates = batch_size
     util_metric.confidence = None
     with_data = sql.Datasources()
     if not sql.Datasource(table).is_table:
       table = with_data.add(sql.Datasource(table, 'BootstrapData'))
-    with_data2 = copy.deepcopy(with_data)
-    _, with_data = util_metric.get_resampled_data_sql(
-        table,
-        sql.Columns(split_by),
-        global_filter,
-        None,
-        with_data,
-    )
-    resampled = with_data.children.popitem()[1]
-    resampled.with_data = with_data
     replicates = []
-    for _ in range(self.n_replicates // batch_size):
-      bst = self.children[0].compute_on_sql(
-          resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
-      )
-      replicates.append(bst.unstack('meterstick_resample_idx'))
-    util_metric.n_replicates = self.n_replicates % batch_size
-    if util_metric.n_replicates:
-      _, with_data2 = util_metric.get_resampled_data_sql(
+    for i in range(0, self.n_replicates, batch_size):
+      util_metric.n_replicates = min(batch_size, self.n_replicates - i)
+      util_metric.first_replicate = i + 1
+      _, resampled_with_data = util_metric.get_resampled_data_sql(
           table,
           sql.Columns(split_by),
           global_filter,
           None,
-          with_data2,
+          copy.deepcopy(with_data),
       )
-      resampled = with_data2.children.popitem()[1]
-      resampled.with_data = with_data2
+      resampled = resampled_with_data.children.popitem()[1]
+      resampled.with_data = resampled_with_data
       bst = self.children[0].compute_on_sql(
           resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
       )
@@ -3074,7 +3061,11 @@ class PoissonBootstrap(Bootstrap):
       )
     uniform_columns.add(uniform_var)
     replicates = sql.Datasource(
-        'UNNEST(GENERATE_ARRAY(1, %s))' % self.n_replicates,
+        'UNNEST(GENERATE_ARRAY(%s, %s))'
+        % (
+            self.first_replicate,
+            self.first_replicate + self.n_replicates - 1,
+        ),
         'meterstick_resample_idx',
     )
     table_with_uniform_var = sql.Sql(
-- 
2.43.0


From bc7a8614e1a132803a09143aeb6c5bb6d9018e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 40/43] fix: mixed mode of Bootstrap SQL computed the parts of
 a Metric on different resamples

---
 operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operations.py b/operations.py
index b5b7499..f5938b3 100644
--- a/operations.py
+++ b/operations.py
@@ -2756,6 +2756,10 @@ class Bootstrap(MetricWithCI):
       self, table, split_by, execute, mode=None, batch_size=None
   ):
     """Compute the children on resampled data in SQL."""
+    if mode == 'mixed':
+      # Every query draws its own resamples, so all leaf Metrics in a replicate
+      # need to be computed in the same query to be on the same resample.
+      mode = None
     batch_size = batch_size or 1000
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-- 
2.43.0


From 5bc3a2ab5e28f15d3f095ad036b0b9aaa2dda333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 41/43] fix: filters of the ancestors did not apply to the
 resampled data in the SQL of Jackknife and Bootstrap

---
 operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index f5938b3..9745182 100644
--- a/operations.py
+++ b/operations.py
@@ -2169,10 +2169,11 @@ class MetricWithCI(Operation):
     local_filter = (
         sql.Filters(self.where_).add(local_filter).remove(global_filter)
     )
-    # global_filter has been applied in preaggregated data.
-    filters = (
-        sql.Filters(None) if self.has_been_preaggregated else global_filter
-    )
+    # global_filter has been applied in preaggregated data. Filters of ancestors
+    # apply to the data that get resampled too.
+    filters = sql.Filters(None)
+    if not self.has_been_preaggregated:
+      filters.add(global_filter).add(local_filter)
 
     name = self.name_tmpl.format('').strip()
     se, with_data = self.get_se_sql(
-- 
2.43.0


From 8f990b88589fd45a4cd04e674564cfb3615c3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:45 +0000
Subject: [PATCH 42/43] fix: parenthesise a condition with any OR in SQL
 filters

Filter.__str__ looked for ' OR ' with spaces around it, so a condition like
'(a = 0)or(b = 1)', or with an OR at the end of a line, wasn't parenthesised
when being ANDed with other conditions.
---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 0e2250a..8fb7813 100644
--- a/sql.py
+++ b/sql.py
@@ -191,7 +191,8 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    has_or = re.search(r'\bOR\b', self.cond, re.IGNORECASE)
+    return '(%s)' % self.cond if has_or else self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From ba1a8e88e18d63b096c13cc8da1ef545171f0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 43/43] fix: a list divided by a metric that has other slices
 raised an error

CompositeMetric assigned the results to the columns of the list in place, which
raises when the other operand has slices that the list doesn't have, e.g.
MetricList(..., where='h != "p"') / Sum('x') split by h.
---
 metrics.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metrics.py b/metrics.py
index 2b86cf6..d73ef1d 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1518,19 +1518,20 @@ class CompositeMetric(Metric):
         elif len(b) == 1 and b_index == [None] and a_index != [None]:
           b = b.iloc[0]
     elif isinstance(a, pd.DataFrame):
-      for i in range(len(a.columns)):
-        a.iloc[:, i] = self.op(a.iloc[:, i], b)
-      res = a
+      # Not in-place because b can have slices that a doesn't.
+      res = pd.concat(
+          [self.op(a.iloc[:, i], b) for i in range(len(a.columns))], axis=1
+      )
       columns = [
-          self.name_tmpl.format(c, getattr(m2, 'name', m2)) for c in res.columns
+          self.name_tmpl.format(c, getattr(m2, 'name', m2)) for c in a.columns
       ]
       res.columns = columns
     elif isinstance(b, pd.DataFrame):
-      for i in range(len(b.columns)):
-        b.iloc[:, i] = self.op(a, b.iloc[:, i])
-      res = b
+      res = pd.concat(
+          [self.op(a, b.iloc[:, i]) for i in range(len(b.columns))], axis=1
+      )
       columns = [
-          self.name_tmpl.format(getattr(m1, 'name', m1), c) for c in res.columns
+          self.name_tmpl.format(getattr(m1, 'name', m1), c) for c in b.columns
       ]
       res.columns = columns
 
-- 
2.43.0

