From 9459a857752a8bebe580c13ce918341a4255ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 01/54] fix: a dying worker or a single core no longer hangs or
 breaks mapper

---
 pyforecaster/big_data_utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..9819636 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -3,7 +3,8 @@ import numpy as np
 from tqdm import tqdm
 import logging
 import ray
-from multiprocessing import Pool, cpu_count
+from concurrent.futures import ProcessPoolExecutor
+from multiprocessing import cpu_count
 import sharedmem
 from time import time
 from typing import Union
@@ -15,13 +16,10 @@ def mapper(f, pars, *argv, sharedmem=False, **kwarg):
     if sharedmem:
         argv = [sharedmem.copy(x) for x in argv]
 
-    # parallel process over shared object
-    pool = Pool(cpu_count() - 1)
-    res = pool.starmap_async(f, [(p, *argv, *list(kwarg.values())) for p in pars])
-    a = res.get()
-    pool.close()
-    pool.join()
-    return a
+    # parallel process over shared object. A worker which dies raises an error here, and the pool is always closed
+    with ProcessPoolExecutor(max_workers=max(1, cpu_count() - 1)) as executor:
+        res = [executor.submit(f, p, *argv, *list(kwarg.values())) for p in pars]
+        return [r.result() for r in res]
 
 
 
-- 
2.43.0


From 375b0e710ac00a1ff2434a2e1f25dd011eb5442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 02/54] fix: fdf_parallel without ray processes every chunk and
 keeps the labels in order

---
 pyforecaster/big_data_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 9819636..0cc3c42 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -81,21 +81,22 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = dfs[0].columns.append([x.columns for x in dfs[1:]])
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
+        df_indexes = dfs[0].index.append([x.index for x in dfs[1:]]) if axis==0 else dfs[0].index
 
-        res = mapper(f, [df.values for df in [dfs[0]]])
-        res = np.vstack(res) if axis == 0 else np.hstack(res)
+        res = mapper(f, [df.values for df in dfs])
+        if recast:
+            res = np.vstack(res) if axis == 0 else np.hstack(res)
 
-        if res.shape == df_shape:
-            res = pd.DataFrame(res, columns=df_columns, index=df_indexes)
+            if res.shape == df_shape:
+                res = pd.DataFrame(res, columns=df_columns, index=df_indexes)
 
     else:
         if not ray.is_initialized():
-- 
2.43.0


From 02e93357dcd31f1285898e78875ff9abac7c36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 03/54] fix: fdf_parallel closes the ray session it opened, and
 only that one, also when a task fails

---
 pyforecaster/big_data_utils.py | 43 +++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 0cc3c42..c55784d 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -99,27 +99,32 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
                 res = pd.DataFrame(res, columns=df_columns, index=df_indexes)
 
     else:
-        if not ray.is_initialized():
+        # only close the ray session if it was opened here
+        own_session = not ray.is_initialized()
+        if own_session:
             ray.init()
-        @ray.remote
-        def f_rem(df):
-            df = f(df)
-            return df
-        responses = ray.get([f_rem.remote(df_i) for df_i in dfs])
-        if recast:
-            if isinstance(responses[0], pd.DataFrame):
-                res = pd.concat(responses, axis=axis)
-            elif isinstance(responses[0], tuple):
-                # this assumes all the outputs of the function are pd.DataFrames
-                res = []
-                for i in range(len(responses[0])):
-                    res.append(pd.concat([r[i] for r in responses], axis=axis))
-                res = tuple(res)
+        try:
+            @ray.remote
+            def f_rem(df):
+                df = f(df)
+                return df
+            responses = ray.get([f_rem.remote(df_i) for df_i in dfs])
+            if recast:
+                if isinstance(responses[0], pd.DataFrame):
+                    res = pd.concat(responses, axis=axis)
+                elif isinstance(responses[0], tuple):
+                    # this assumes all the outputs of the function are pd.DataFrames
+                    res = []
+                    for i in range(len(responses[0])):
+                        res.append(pd.concat([r[i] for r in responses], axis=axis))
+                    res = tuple(res)
+                else:
+                    res = np.vstack(responses) if axis == 0 else np.hstack(responses)
             else:
-                res = np.vstack(responses) if axis == 0 else np.hstack(responses)
-        else:
-            res = responses
-        ray.shutdown()
+                res = responses
+        finally:
+            if own_session:
+                ray.shutdown()
 
     return res
 
-- 
2.43.0


From 75d635ad31585519b5dd685eb1e90166c2257485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 04/54] fix: parallel scenario trees on a single core machine

---
 pyforecaster/scenarios_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 72790f7..a1db150 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -124,7 +124,7 @@ class ScenGen:
             scenarios = self.sample_scenarios(x, n_scen, quantiles, init_obs, **copula_kwargs)
 
             if self.parallel_preds and scenarios.shape[0] > 1:
-                with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count() - 1) as executor:
+                with concurrent.futures.ProcessPoolExecutor(max_workers=max(1, cpu_count() - 1)) as executor:
                     trees = [i for i, *_ in tqdm(executor.map(partial(self.tree.gen_tree, k_max=self.k_max, nodes_at_step=nodes_at_step), scenarios), total=scenarios.shape[0], desc='generating trees')]
             else:
                 for scenarios_t in tqdm(scenarios, desc='generating trees'):
@@ -139,7 +139,7 @@ class ScenGen:
                 predictions = pd.concat([pd.Series(init_obs, index=predictions.index, name='additional_node'), predictions], axis=1)
 
             if self.parallel_preds and predictions.shape[0] > 1:
-                pred_trees = fdf_parallel(partial(tree_gen_chunk, trees=self.trees), predictions, np.minimum(cpu_count()-1, predictions.shape[0]),
+                pred_trees = fdf_parallel(partial(tree_gen_chunk, trees=self.trees), predictions, max(1, np.minimum(cpu_count()-1, predictions.shape[0])),
                                           axis=0, recast=False)
                 # unroll list of lists
                 trees = [item for sublist in pred_trees for item in sublist]
-- 
2.43.0


From be1b889a4658f3e8853bbd4188ca6eb5ff6ccee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 05/54] fix: parallel fit of LGBMHybrid on machines with one or
 two cores

---
 pyforecaster/forecasting_models/gradientboosters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..3ab6b8c 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -79,7 +79,7 @@ class LGBMHybrid(ScenarioGenerator):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         if self.parallel:
-            with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
+            with concurrent.futures.ProcessPoolExecutor(max_workers=max(1, cpu_count()-2)) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
             for i in tqdm(range(self.n_single)):
-- 
2.43.0


From e989ef823482e62ef5c4037b6d81a2ad2f068bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 06/54] fix: column order of a global-form dataset no longer
 depends on the string hash seed

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..f757a83 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -601,13 +601,13 @@ class Formatter:
                                                                                      ' "target"'
         transformed_columns = [tr.names for tr in self.transformers]
         transformed_columns = [item for sublist in transformed_columns for item in sublist]
-        transformed_columns = list(set(np.unique(transformed_columns)) - {'target'})
+        transformed_columns = sorted(set(np.unique(transformed_columns)) - {'target'})
         # if x is multiindex pd.DataFrame do something
         if isinstance(x.columns, pd.MultiIndex):
             # find columns names at level 0 that contains the targets
             c_l_0 = x.columns.get_level_values(0).unique()
             private_cols_l0 = [c for c in c_l_0 if not np.all([str(t) in transformed_columns for t in x[c].columns])]
-            shared_cols_l0 = list(set(c_l_0) - set(private_cols_l0))
+            shared_cols_l0 = [c for c in c_l_0 if c not in private_cols_l0]
             x_shared = x[shared_cols_l0].droplevel(0, 1)
             dfs = []
             for p in private_cols_l0:
-- 
2.43.0


From 8dda63c696450fda671df735c74ffd9637881ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 07/54] fix: bridges and long weekends around new year no
 longer depend on where the data end

---
 pyforecaster/formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index f757a83..bc2b387 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -92,7 +92,9 @@ class Formatter:
 
     def add_holidays(self, x, state_code='CH', **kwargs):
         self.logger.debug('Adding holidays')
-        holidays = holidays_api.country_holidays(country=state_code, years=x.index.year.unique(), **kwargs)
+        # holidays of an adjacent year decide on the bridges and long weekends at the edges of x
+        years = range((x.index[0] - pd.Timedelta('3D')).year, (x.index[-1] + pd.Timedelta('3D')).year + 1)
+        holidays = holidays_api.country_holidays(country=state_code, years=years, **kwargs)
         bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
-- 
2.43.0


From 1bbc38f5174a27300e486e10702ae644a871c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 08/54] fix: parallel global-form transform with corr_reorder
 no longer depends on the number of cores

---
 pyforecaster/formatter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index bc2b387..55252fb 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -191,10 +191,12 @@ class Formatter:
                 # simulate transform on one fold single core to retrieve metadata (ray won't persist class attributes)
                 self._simulate_transform(dfs[0])
                 for i in tqdm(range(n_folds)):
-                    x, y = fdf_parallel(f=partial(self._transform, time_features=time_features, holidays=holidays,
-                                                  return_target=return_target, **holidays_kwargs),
-                                        df=dfs[n_cpu * i:n_cpu * (i + 1)])
-                    xs, ys = self.global_form_postprocess(x, y, xs, ys, reduce_memory=reduce_memory, corr_reorder=corr_reorder)
+                    # one result per signal: each signal is reduced and reordered on its own, as in the sequential case
+                    res = fdf_parallel(f=partial(self._transform, time_features=time_features, holidays=holidays,
+                                                 return_target=return_target, **holidays_kwargs),
+                                       df=dfs[n_cpu * i:n_cpu * (i + 1)], recast=False)
+                    for x, y in res:
+                        xs, ys = self.global_form_postprocess(x, y, xs, ys, reduce_memory=reduce_memory, corr_reorder=corr_reorder)
             else:
                 for df_i in dfs:
                     x, y = self._transform(df_i, time_features=time_features, holidays=holidays,
-- 
2.43.0


From 2392d1e0f6eace12fd05fd85244eede5856070a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 09/54] fix: binned features (nested=False) are available for
 the most recent rows

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 55252fb..6088a06 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -789,7 +789,7 @@ class Transformer:
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
                                 partial_res.append(np.vstack(reducer.stats).tolist())
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
-                            d = d.shift(np.max(self.original_agg_bins)-1)
+                            d = d.reindex(x.index).shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
                             trans_names = ['{}_{}_{}_{}'.format(name, p[1], self.original_agg_bins[p[0]],
-- 
2.43.0


From 6324c5e9a12fb6df8a28e8368c3b105b6aadbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 10/54] fix: long weekends around a clock change no longer
 depend on where the data end

---
 pyforecaster/formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 6088a06..24ad15b 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -93,9 +93,10 @@ class Formatter:
     def add_holidays(self, x, state_code='CH', **kwargs):
         self.logger.debug('Adding holidays')
         # holidays of an adjacent year decide on the bridges and long weekends at the edges of x
-        years = range((x.index[0] - pd.Timedelta('3D')).year, (x.index[-1] + pd.Timedelta('3D')).year + 1)
+        first_day, last_day = (t.tz_localize(None).normalize() for t in (x.index[0], x.index[-1]))
+        years = range((first_day - pd.Timedelta('3D')).year, (last_day + pd.Timedelta('3D')).year + 1)
         holidays = holidays_api.country_holidays(country=state_code, years=years, **kwargs)
-        bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
+        bridges, long_weekends = spot_holiday_bridges(start=first_day-pd.Timedelta('2D'), end=last_day+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
 
-- 
2.43.0


From cc465906658ecfd7bb5d3b91a755399af74f36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 11/54] fix: scenario trees keep the caller's node layout
 untouched and work for one step and for few scenarios

---
 pyforecaster/scenred.py       | 4 +++-
 pyforecaster/tree_builders.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..ab3ae1f 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -349,7 +349,9 @@ def get_network(S_s, P_s):
     edges_start, edges_end, attributes_t, attributes_p, attributes_v = _get_network(S_s, P_s)
     attributes = {i: {'t': t, 'p': p, 'v': v, 'label': i} for i, (t, p, v) in enumerate(zip(attributes_t, attributes_p, attributes_v))}
     edges = [(s, e) for s, e in zip(edges_start, edges_end)]
-    g = nx.DiGraph(edges)
+    g = nx.DiGraph()
+    g.add_nodes_from(attributes)
+    g.add_edges_from(edges)
     nx.set_node_attributes(g, attributes)
     return g
 
diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..a46717f 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -74,7 +74,9 @@ class ScenarioTree:
             nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
                 geometric_nodes
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        # never write into the layout of the caller
+        nodes_at_step = np.array(nodes_at_step)
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From 8383561782b90a16e66de79e62f97f9cb6c00c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 12/54] fix: DiffTree no longer carries the learning rate of
 one prediction over to the next ones

---
 pyforecaster/tree_builders.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index a46717f..0de4d01 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -214,8 +214,8 @@ class DiffTree(ScenarioTree):
     def gen_tree(self, scens: Union[list, np.ndarray, pd.DataFrame], start_tree=None, k_max=100, tol=1e-3,
                  do_plot=False, evaluation_step=1, nodes_at_step=None):
         scens = np.array(scens)
-        if self.learning_rate is None:
-            self.learning_rate = np.maximum(1/scens.shape[1], 0.1)
+        # local: one call must not change the learning rate of the following ones
+        learning_rate = np.maximum(1/scens.shape[1], 0.1) if self.learning_rate is None else self.learning_rate
         tree, tree_scens, tree_idxs, tree_vals = super().gen_tree(scens, start_tree, nodes_at_step=nodes_at_step)
         tree, _, tree_vals = self.init_vals(tree, tree_scens, tree_vals, scens)
         k = 0
@@ -230,8 +230,8 @@ class DiffTree(ScenarioTree):
                 past_loss = loss
                 print('iter {}, loss: {}, rel_dev: {:0.2e}'.format(k, loss, rel_dev))
                 if loss > past_loss:
-                    self.learning_rate *= 0.8
-                    print('I am setting learning rate from {} to {} since loss increased last step'.format(self.learning_rate, self.learning_rate*0.8))
+                    print('I am setting learning rate from {} to {} since loss increased last step'.format(learning_rate, learning_rate*0.8))
+                    learning_rate *= 0.8
             if do_plot and k % evaluation_step == 0:
                 ax.cla()
                 replace_var(tree, tree_vals)
@@ -242,7 +242,7 @@ class DiffTree(ScenarioTree):
                 plt.savefig(join(self.savepath, 'step_{:03d}'.format(k)))
                 plt.pause(0.01)
             g = grad(partial(self.metric_loss, tree_idxs=tree_idxs, scens=scens))(tree_vals)
-            tree_vals -= g*self.learning_rate
+            tree_vals -= g*learning_rate
             k +=1
 
         replace_var(tree, tree_vals)
-- 
2.43.0


From 1c08716d7ba9b10465eac54991a4503c4d397d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 13/54] fix: QRF quantiles as an array keep steps and quantiles
 apart

The frame of quantile forecasts is ordered (target, quantile), QRF.quantiles_to_numpy read it as (quantile, target):
scenarios and trees of a QRF were drawn from scrambled quantiles. The inherited method reads it right.
---
 pyforecaster/forecasting_models/randomforests.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..a1a2dea 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -183,14 +183,6 @@ class QRF(ScenarioGenerator):
                                                         period=period, keep_last_n_lags=keep_last_n_lags, keep_last_seconds=keep_last_seconds,
                                                         tol_period=tol_period)
 
-    @staticmethod
-    def quantiles_to_numpy(q_hat: pd.DataFrame):
-        n_taus = len(q_hat.columns.get_level_values(1).unique())
-        q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
-        return q_hat
-
     def predict_quantiles(self, x, dataframe=True, **kwargs):
         preds = self.predict(x, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else self.q_vect)
         if dataframe is False:
-- 
2.43.0


From 5d56b8b30244c98c3e06e3368241f2866d333e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 14/54] fix: QRF forecasts of a single target, or with a single
 step left to the global model

Point forecasts of one target for more than one row had their axes swapped, and quantiles of a global model trained on a
single step could not be stacked with those of the per-step models.
---
 pyforecaster/forecasting_models/randomforests.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index a1a2dea..19406c5 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -141,14 +141,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(np.reshape(preds, (len(x), -1)), index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(np.reshape(preds, (len(x), -1)), index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -167,7 +167,8 @@ class QRF(ScenarioGenerator):
         if len(preds.shape) == 1:
             preds = np.expand_dims(preds, 1)
         if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
+            # a single step gives one column per quantile, several steps and one quantile one column per step
+            preds = np.expand_dims(preds, 2 if self.n_multistep == 1 else 1)
         else:
             preds = np.swapaxes(preds, 1, 2)
         return preds
-- 
2.43.0


From 29b8e4b857841db35df6f372572f5d3ca4a1bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 15/54] fix: QRF.predict accepts the period keyword it
 documents by reading it

---
 pyforecaster/forecasting_models/randomforests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 19406c5..8c1142e 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -126,7 +126,7 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def predict(self, x, **kwargs):
         preds = []
-        period = kwargs['period'] if 'period' in kwargs else '24h'
+        period = kwargs.pop('period', '24h')
         if self.parallel:
             with concurrent.futures.ThreadPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 preds = [i for i in tqdm(executor.map(partial(self._predict, x=x, period=period, **kwargs), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From 3b67b4ce96d5337038324efb43ab4630482f6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 16/54] fix: refitting the boosters and the quantile forest
 drops the models of the previous fit

LGBForecaster, LGBMHybrid, LGBEnergyAware and QRF (sequential) appended to the models of an earlier fit, so that a refitted
forecaster kept predicting with the old ones or failed.
---
 pyforecaster/forecaster.py                          | 1 +
 pyforecaster/forecasting_models/gradientboosters.py | 2 ++
 pyforecaster/forecasting_models/randomforests.py    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..47853e4 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -390,6 +390,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 3ab6b8c..152102c 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=max(1, cpu_count()-2)) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -176,6 +177,7 @@ class LGBEnergyAware(LGBMHybrid):
     def fit(self, x, y):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.models = []
         e_unbalance = pd.DataFrame()
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 8c1142e..d6c2024 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -105,6 +105,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From cf6983f26bba58f6815e0e6bc96e08ff5088f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 17/54] fix: LGBEnergyAware.fit no longer trains the models of
 its parent class on top of its own

With parallel=True those replaced its own models and fit failed, otherwise they were trained and never used.
---
 pyforecaster/forecasting_models/gradientboosters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 152102c..35bc3c4 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -197,7 +197,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # not LGBMHybrid.fit, which would train and add models without the energy unbalance
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
-- 
2.43.0


From a3a82a6ed661e856cc14612582524e94a479cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 18/54] fix: categorical columns are encoded in a copy, with
 the encoders of the last fit

The frame of the caller was overwritten with the codes, and a second fit kept the encoders of the first one (failing on
categories it had not seen).
---
 pyforecaster/forecaster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 47853e4..c92b70b 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -25,12 +25,14 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
-        # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        # Initialize a protected dictionary to store encoders if it doesn't exist yet; a new fit learns new encoders
+        if not hasattr(self, '_le') or func.__name__ == 'fit':
             self._le = {}
 
-        # Check if x contains columns that are not numbers and encode them
-        for column in x.select_dtypes(include=['object', 'category']).columns:
+        # Check if x contains columns that are not numbers and encode them, in a copy
+        columns = x.select_dtypes(include=['object', 'category']).columns
+        x = x.copy() if len(columns) > 0 else x
+        for column in columns:
             if column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
-- 
2.43.0


From 2990e4c5ff53c98688290338960e25a56191a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 19/54] fix: tuning trials no longer overwrite the keyword
 arguments they share

A sequential trial set targets_names to None for all the following ones, which then failed without a score, and the
dictionary of the caller came back with the parameters of the last trial.
---
 pyforecaster/forecasting_models/holtwinters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..e156f76 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,8 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    # work on a copy: trials share the keyword arguments
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
@@ -72,7 +73,7 @@ def tune_hyperpars(x, model_class, hyperpars, n_trials=100, return_model=True, p
             trial[k] = sample
         pars_cartridge.append(trial)
 
-    model_init_kwargs.update({'optimize_hyperpars':False})
+    model_init_kwargs = {**model_init_kwargs, 'optimize_hyperpars': False}
     model_init_kwargs_0 = deepcopy(model_init_kwargs)
 
 
-- 
2.43.0


From 2ba5997c7b1213743ffc4e769aeafd9fecc36aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 20/54] fix: a missing observation no longer turns all later
 Holt-Winters forecasts into NaN

The gap was filled with y_tot[j, 0], which still holds the missing observation itself at that point.
---
 pyforecaster/forecasting_models/holtwinters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index e156f76..2e22351 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -352,9 +352,11 @@ def run(horizon, period, alpha, beta, gamma, s1mp, s2mp, am1, bm1, Y, y_tot, y_h
     s2mp_shift = 0*s2mp
     for j in np.arange(len(Y)):
         if np.isnan(Y[j]):
-            a = alpha * (y_tot[j,0] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (y_tot[j,0] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (y_tot[j,0] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
+            # no observation: as if the last one-step-ahead forecast had been observed
+            y_j = am1 + bm1 + s1mp[0] + s2mp[0]
+            a = alpha * (y_j - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
+            s1 = gamma[0] * (y_j - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
+            s2 = gamma[1] * (y_j - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
         else:
             a = alpha * (Y[j] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
             s1 = gamma[0] * (Y[j] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-- 
2.43.0


From a5c9351b237a617a24068fcd0d8579ab032964c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 21/54] fix: error distribution of HoltWintersMulti covers
 every step

The offset of the next submodel was the number of quantiles instead of the number of steps, so that the distribution stayed
zero for the steps in between.
---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 2e22351..c974cfc 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -440,7 +440,7 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
-- 
2.43.0


From 4ce5efbb842f5106f8f8f455b11941176a65402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 22/54] fix: Fourier and Kalman forecasters can be pickled and
 copied

__getstate__ returned the states only and __setstate__ needed an object that already had some, so neither pickling nor
deepcopy worked.
---
 .../fast_adaptive_models.py                   | 25 +++----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..28ed341 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -243,7 +243,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.__setstate__({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -253,12 +253,6 @@ class Fourier_es(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 
 #@njit
@@ -399,7 +393,7 @@ class FK(StatefulForecaster):
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
                                                                self.n_harmonics_int, w)
         if fit:
-            self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
@@ -412,12 +406,6 @@ class FK(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 class FK_multi(StatefulForecaster):
     """
@@ -570,8 +558,7 @@ class FK_multi(StatefulForecaster):
 
         if fit:
             # if we were fitting, store states. Do nothing if we're predicting
-            # self.states = [self.models[j].__getstate__() for j in range(self.n_predictors)]
-            self.__setstate__({'Q':Q, 'R':R, 'P':P, 'x':x})
+            self.states.update({'Q':Q, 'R':R, 'P':P, 'x':x})
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
         return np.vstack(preds[1:])
@@ -579,9 +566,3 @@ class FK_multi(StatefulForecaster):
     def _predict_quantiles(self, x, **kwargs):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
-
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
\ No newline at end of file
-- 
2.43.0


From 6fe37e5694f3d1c0e7ff6324a0ca8eecd186a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 23/54] fix: FK no longer grows by the rows of every prediction

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 28ed341..ebeea9b 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -394,9 +394,9 @@ class FK(StatefulForecaster):
                                                                self.n_harmonics_int, w)
         if fit:
             self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.coeffs_t_history = coeffs_t_history.T
 
         preds = preds + preds_updated
-        self.coeffs_t_history = coeffs_t_history.T
 
         if return_coeffs:
             return np.vstack(preds[1:]), coeffs_t_history.T
-- 
2.43.0


From 41f41f4a4a0f5dd95300fb2443aea51b8e35b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 24/54] fix: the stored window of Fourier_es no longer aliases
 the training data

Overwriting the training frame after the fit (a reused buffer) changed the forecasts of the fitted model.
---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index ebeea9b..92aeee7 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -115,7 +115,8 @@ class StatefulForecaster(ScenarioGenerator):
         # deal with the prediction case: no y, we use stored window values
         y_w = y[start:i + 1]
         if len(y_w) == m:
-            w = y_w
+            # a copy: the window is stored after the fit, y belongs to the caller
+            w = np.copy(y_w)
         else:
             w = np.roll(w, -len(y_w))
             w[-len(y_w):] = y_w
-- 
2.43.0


From bd5bc4644ce233fbe3992e5cb87db4ad97862579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 25/54] fix: tuning without targets_names scores its trials
 instead of failing

---
 pyforecaster/forecasting_models/holtwinters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index c974cfc..902ce20 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -42,8 +42,10 @@ def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
             model.target_name = c
             subscores.append(score_autoregressive(model, x[features_names], target_name=c, n_sa=model.n_sa))
         score = np.mean(subscores)
-    else:
+    elif return_model:
         model.fit(x)
+    else:
+        score = score_autoregressive(model, x, target_name=model.target_name, n_sa=model.n_sa)
     if return_model:
         return model
     else:
-- 
2.43.0


From 5b28eebc78440141f6b81a68bb2d9094b4ed67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 26/54] fix: tuning keeps the settings the forecaster has now,
 not those it was built with

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 pyforecaster/forecasting_models/holtwinters.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 92aeee7..afe2254 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -124,7 +124,8 @@ class StatefulForecaster(ScenarioGenerator):
 
     def tune_hyperpars(self, x_pd):
         pars_opt = tune_hyperpars(x_pd, self.__class__, hyperpars=self.hyperpar_lims, n_trials=self.optimization_budget,
-                                  return_model=False, model_init_kwargs=self.init_pars)
+                                  return_model=False,
+                                  model_init_kwargs={**self.init_pars, **self.get_params()})
         self.set_params(**pars_opt)
         self.reinit_pars()
         return self
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 902ce20..3c446e5 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -185,7 +185,8 @@ class HoltWinters(ScenarioGenerator):
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, HoltWinters, hyperpars={'alpha':[0, 1], 'gamma_1':[0, 1], 'gamma_2':[0, 1]},
-                            n_trials=self.optimization_budget, return_model=False, model_init_kwargs=self.init_pars)
+                            n_trials=self.optimization_budget, return_model=False,
+                            model_init_kwargs={**self.init_pars, **self.get_params()})
             self.set_params(**pars_opt)
 
         y = x_pd[self.target_name].values
-- 
2.43.0


From bd5b829336e37326a6cfa9f6a6ed4bc2e31321a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 27/54] fix: refitting BrutalRegressor forgets the levels of
 the previous fit

---
 pyforecaster/forecasting_models/random_fourier_features.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..6194d46 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -91,6 +91,8 @@ class BrutalRegressor:
         if isinstance(x, pd.DataFrame):
             x = x.values
         self.target_cols = y.columns
+        # forget the levels of a previous fit
+        self.best_pars = []
         if plot:
             plt.figure()
         err = y.copy().values
-- 
2.43.0


From 7add4b60948187fadd3bdfd671d53292cf32d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 28/54] fix: quantile forecasts of LSTMNN no longer fail on
 already reshaped inputs

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..64589c0 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -485,7 +485,6 @@ class NN(ScenarioGenerator):
             return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
-        inputs, _ = self.check_inputs(inputs, None)
         if self.probabilistic:
             if normalize:
                 mu_hat, sigma_hat = self.predict(inputs, return_sigma=True)
-- 
2.43.0


From 51183bbc3ca7ef447bcf7ce638cc9120222c58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 29/54] fix: checkpoints of neural forecasters keep everything
 forecasts need, not only class level settings

---
 .../forecasting_models/neural_models/base_nn.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 64589c0..f003968 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -291,13 +291,17 @@ class NN(ScenarioGenerator):
 
     def get_serializable_properties(self):
         attrs = {}
-        for key, value in self.get_class_properties().items():
-            if key in self._runtime_serialization_excludes():
+        # class level settings plus everything the instance has learned (error distribution, scenario generator, ...)
+        for key, value in {**self.get_class_properties(), **self.__dict__}.items():
+            if key in self._runtime_serialization_excludes() or isinstance(getattr(type(self), key, None), property):
                 continue
             try:
                 pk.dumps(value, protocol=pk.HIGHEST_PROTOCOL)
             except Exception:
-                continue
+                if callable(value):
+                    # compiled functions are rebuilt after loading
+                    continue
+                raise
             attrs[key] = value
         return attrs
 
-- 
2.43.0


From fa9bd343714bc5176eece6cdebb747ff0d7e5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 30/54] fix: saving a neural forecaster replaces the checkpoint
 atomically

---
 .../neural_models/base_nn.py                  | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index f003968..d1579af 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -1,4 +1,6 @@
+import os
 import pickle as pk
+import threading
 
 from inspect import getmro
 from os.path import join
@@ -306,9 +308,30 @@ class NN(ScenarioGenerator):
         return attrs
 
     def save(self, save_path):
-        attrdict = self.get_serializable_properties()
-        with open(save_path, 'wb') as f:
-            pk.dump(attrdict, f, protocol=pk.HIGHEST_PROTOCOL)
+        """
+        Save the forecaster. The file is replaced only once the new one is complete and on disk: an interrupted save
+        leaves the previous one as it was.
+        """
+        payload = pk.dumps(self.get_serializable_properties(), protocol=pk.HIGHEST_PROTOCOL)
+        save_path = os.path.realpath(save_path)
+        tmp_path = '{}.{}-{}.tmp'.format(save_path, os.getpid(), threading.get_ident())
+        try:
+            with open(tmp_path, 'wb') as f:
+                f.write(payload)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, save_path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+        if os.name == 'posix':
+            # make the renaming durable, too
+            dir_fd = os.open(os.path.dirname(save_path), os.O_RDONLY)
+            try:
+                os.fsync(dir_fd)
+            finally:
+                os.close(dir_fd)
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
-- 
2.43.0


From 30aa856449a7fae2ade6af279be69cc11b928bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 31/54] fix: LGBForecaster and QRF train with the current
 settings, so that set_params has an effect

---
 pyforecaster/forecaster.py                    | 28 +++++++------
 .../forecasting_models/randomforests.py       | 42 ++++++++++---------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index c92b70b..57da0d7 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -377,18 +377,22 @@ class LGBForecaster(ScenarioGenerator):
         self.colsample_bynode = colsample_bynode
         self.n_jobs = n_jobs
         self.n_jobs_predict = n_jobs_predict
-        self.lgb_pars = {"device_type": self.device_type,
-                    "objective": self.objective,
-                    "max_depth": self.max_depth,
-                    "n_estimators": self.n_estimators,
-                    "num_leaves": self.num_leaves,
-                    "learning_rate": self.learning_rate,
-                    "verbose": self.verbose,
-                    "metric": self.metric,
-                    "min_child_samples": self.min_child_samples,
-                    "n_jobs": self.n_jobs,
-                    "colsample_bytree": self.colsample_bytree,
-                    "colsample_bynode": self.colsample_bynode}
+
+    @property
+    def lgb_pars(self):
+        # always the current settings, so that set_params has an effect
+        return {"device_type": self.device_type,
+                "objective": self.objective,
+                "max_depth": self.max_depth,
+                "n_estimators": self.n_estimators,
+                "num_leaves": self.num_leaves,
+                "learning_rate": self.learning_rate,
+                "verbose": self.verbose,
+                "metric": self.metric,
+                "min_child_samples": self.min_child_samples,
+                "n_jobs": self.n_jobs,
+                "colsample_bytree": self.colsample_bytree,
+                "colsample_bynode": self.colsample_bynode}
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index d6c2024..d79203e 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -68,26 +68,30 @@ class QRF(ScenarioGenerator):
         self.ccp_alpha = ccp_alpha
         self.parallel = parallel
         self.max_parallel_workers = max_parallel_workers
+        self.default_quantiles = q_vect if q_vect is not None else 'mean'
 
-        self.qrf_pars = {
-            "n_estimators":n_estimators,
-            "bootstrap": bootstrap,
-            "oob_score": oob_score,
-            "n_jobs": n_jobs,
-            "random_state": random_state,
-            "verbose": verbose,
-            "warm_start": warm_start,
-            "max_samples": max_samples,
-            "min_samples_split": min_samples_split,
-            "min_samples_leaf": min_samples_leaf,
-            "max_samples_leaf": max_samples_leaf,
-            "min_weight_fraction_leaf": min_weight_fraction_leaf,
-            "max_features": max_features ,
-            "max_leaf_nodes": max_leaf_nodes,
-            "min_impurity_decrease": min_impurity_decrease,
-            "default_quantiles":q_vect if q_vect is not None else 'mean',
-            "criterion":criterion,
-             "ccp_alpha":ccp_alpha
+    @property
+    def qrf_pars(self):
+        # always the current settings, so that set_params has an effect
+        return {
+            "n_estimators": self.n_estimators,
+            "bootstrap": self.bootstrap,
+            "oob_score": self.oob_score,
+            "n_jobs": self.n_jobs,
+            "random_state": self.random_state,
+            "verbose": self.verbose,
+            "warm_start": self.warm_start,
+            "max_samples": self.max_samples,
+            "min_samples_split": self.min_samples_split,
+            "min_samples_leaf": self.min_samples_leaf,
+            "max_samples_leaf": self.max_samples_leaf,
+            "min_weight_fraction_leaf": self.min_weight_fraction_leaf,
+            "max_features": self.max_features,
+            "max_leaf_nodes": self.max_leaf_nodes,
+            "min_impurity_decrease": self.min_impurity_decrease,
+            "default_quantiles": self.default_quantiles,
+            "criterion": self.criterion,
+            "ccp_alpha": self.ccp_alpha
         }
 
     def _fit(self, i, x, y, sample_weight=None):
-- 
2.43.0


From a46c3191c9443fe871fee9d8acc8af5ce090066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 32/54] fix: QRF hands max_depth to its forests

---
 pyforecaster/forecasting_models/randomforests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index d79203e..27e2f23 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -75,6 +75,7 @@ class QRF(ScenarioGenerator):
         # always the current settings, so that set_params has an effect
         return {
             "n_estimators": self.n_estimators,
+            "max_depth": self.max_depth,
             "bootstrap": self.bootstrap,
             "oob_score": self.oob_score,
             "n_jobs": self.n_jobs,
-- 
2.43.0


From 06ac2c80b1526c449c8a579b09a1f5d37b657484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 33/54] fix: cloned forecasters keep the parameters forwarded
 to parent classes and nodes_at_step

---
 pyforecaster/forecaster.py                            | 11 ++++++++++-
 .../forecasting_models/neural_models/base_nn.py       |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 57da0d7..8d05161 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -56,6 +56,12 @@ def encode_categorical(func):
 
 
 class ScenarioGenerator(BaseEstimator):
+    def __new__(cls, *args, **kwargs):
+        # keyword arguments forwarded to a parent class are parameters too: a clone must not lose them
+        self = super().__new__(cls)
+        self._forwarded_pars = {k: v for k, v in kwargs.items() if k not in signature(cls).parameters}
+        return self
+
     def __init__(self, q_vect=None, nodes_at_step=None, val_ratio=None, logger=None, n_scen_fit=100,
                  additional_node=False, formatter=None, conditional_to_hour=True,
                  max_scengen_rows: Optional[Union[int, np.integer]] = None,
@@ -72,6 +78,7 @@ class ScenarioGenerator(BaseEstimator):
         self.scengen_random_state = int(scengen_random_state) if scengen_random_state is not None else None
         self.q_vect = np.hstack([0.01, np.linspace(0,1,11)[1:-1], 0.99]) if q_vect is None else q_vect
         self.scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=nodes_at_step, additional_node=additional_node, **scengen_kwgs)
+        self.nodes_at_step = nodes_at_step
         self.val_ratio = val_ratio
         self.err_distr = {}
         self.logger = get_logger(name='Forecaster', level='WARNING') if logger is None else logger
@@ -91,9 +98,11 @@ class ScenarioGenerator(BaseEstimator):
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        self._forwarded_pars.update({k: v for k, v in kwargs.items() if k in self._forwarded_pars})
 
     def get_params(self, **kwargs):
-        return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
+        params = {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
+        return {**params, **{k: getattr(self, k, v) for k, v in self._forwarded_pars.items()}}
 
     def _get_scengen_subsample_seed(self) -> int:
         if self.scengen_random_state is not None:
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index d1579af..2f99b7d 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -334,7 +334,7 @@ class NN(ScenarioGenerator):
                 os.close(dir_fd)
 
     def set_params(self, **kwargs):
-        [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        super().set_params(**kwargs)
         self.set_arch()
 
     def set_attr(self, attrdict):
-- 
2.43.0


From 6703a1f161cc5810ee27b8129ea50814b2b0422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 34/54] fix: cross-validation with stored replies works for
 fold generators and positional folds

---
 pyforecaster/trainer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..4505f42 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -20,6 +20,13 @@ def get_score_key(cv_results, scoring, score_key=None):
     score_key = score_key if score_key is not None else fallback_name
     return score_key
 
+def fold_rows(df, idx):
+    """
+    Rows of a fold. As in scikit-learn folds are boolean masks or integer positions; anything else is taken as labels
+    """
+    idx_values = np.asarray(idx)
+    return df.iloc[idx_values] if idx_values.dtype.kind in 'biu' else df.loc[idx]
+
 def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=None, cv_type='full',
                    trial=None, storage_fun=None, score_key=None, **cv_kwargs):
     """
@@ -35,7 +42,8 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     :param cv_kwargs: additional arguments to be passed to the cross validation function
     :return:
     """
-    # create generator
+    # folds are needed more than once
+    cv_folds = list(cv_folds)
     cv_gen = (f for f in cv_folds)
 
     # retrieve cross validation score
@@ -51,12 +59,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): fold_rows(y, cv_idxs[1]) for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(fold_rows(x, cv_idxs[1])) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = fold_rows(x, tr_idx), fold_rows(x, te_idx), fold_rows(y, tr_idx), fold_rows(y, te_idx)
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From 2cdfeba13b3bfb45477a6a3e0ae3697c51f44289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 35/54] fix: hyper-parameter trials do not leak into each other
 or into the caller's model

---
 pyforecaster/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 4505f42..25d6354 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -1,5 +1,6 @@
 from sklearn.model_selection import cross_validate as sklear_cv
 from sklearn.model_selection import KFold
+from sklearn.base import clone
 from sklearn.metrics import make_scorer
 import optuna
 import pandas as pd
@@ -103,7 +104,10 @@ def optuna_objective(trial, x: pd.DataFrame, y: pd.DataFrame, model, cv, scoring
     if not np.all([k in list(signature(model.__class__).parameters.keys()) + list(model.get_params().keys()) for k in params.keys()]):
         raise ValueError('not all parameter space names are in the model signature. This means they will not affect the'
                          ' performance of your model. Something is wrong')
+    # each trial starts from an untouched copy of the model: parameters and learned state of other trials must not leak
+    model = clone(model)
     model.set_params(**params)
+    model = clone(model)
 
     # retrieve cross validation score
     cv_results, score = cross_validate(x, y, model, cv, scoring=scoring, cv_type=cv_type, trial=trial,
-- 
2.43.0


From 3447def9c0e159ec360b11c13a4ab91da1f047e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 36/54] fix: random_fold cross-validation with several scorers
 needs no score_key

---
 pyforecaster/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 25d6354..0e8b1ea 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -17,6 +17,8 @@ def default_param_space_fun(trial):
 
 def get_score_key(cv_results, scoring, score_key=None):
     fallback_name = 'test_' + list(scoring.keys())[0] if isinstance(scoring, dict) else list(cv_results.keys())[-1]
+    # random folds store the scores under their plain names
+    fallback_name = fallback_name if fallback_name in cv_results.keys() else fallback_name.removeprefix('test_')
     fallback_name = 'test_score' if 'test_score' in cv_results.keys() else fallback_name
     score_key = score_key if score_key is not None else fallback_name
     return score_key
-- 
2.43.0


From 7aa8e171856fc54183ffd40a6ba543f6ba3a3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 37/54] fix: trials that got no score store no reply

---
 pyforecaster/trainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 0e8b1ea..c7e54ee 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -115,8 +115,9 @@ def optuna_objective(trial, x: pd.DataFrame, y: pd.DataFrame, model, cv, scoring
     cv_results, score = cross_validate(x, y, model, cv, scoring=scoring, cv_type=cv_type, trial=trial,
                                        storage_fun=storage_fun, **cv_kwargs)
 
-    # this is thought to permanently store some function outputs that take as input the current trained model
-    if storage_fun is not None:
+    # this is thought to permanently store some function outputs that take as input the current trained model.
+    # Trials without a score count as failed and store nothing, so that replies match the completed trials
+    if storage_fun is not None and not np.isnan(score):
         storage_fun(storage, cv_results)
 
     return score
-- 
2.43.0


From 9d78f5567f34519f4705ad9571ba4797de214515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 38/54] fix: scenarios and trees depend on the given random
 state only

---
 pyforecaster/scenarios_generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index a1db150..ca38754 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -157,6 +157,15 @@ class ScenGen:
         t_q = quantiles.shape[0]
         assert t_q == t, 'quantiles must have the same number of rows as x'
 
+        # the jitter below decides between (nearly) equal scenarios in the tree reduction: draw it from the given state, too
+        random_state = copula_kwargs.get('random_state', None)
+        if random_state is None:
+            rng = np.random
+        elif isinstance(random_state, (np.random.RandomState, np.random.Generator)):
+            rng = random_state
+        else:
+            rng = np.random.RandomState(random_state)
+
         # copula samples of dimension n_obs, n_steps, n_scen
         copula_samples = self.copula.sample(x, n_scen, **copula_kwargs)
 
@@ -166,7 +175,7 @@ class ScenGen:
             assert len(init_obs) == scenarios.shape[0], 'length of init_obs was {}, while should have been equal to ' \
                                                         '{}'.format(len(init_obs), scenarios.shape[0])
             for t, init_o in enumerate(init_obs):
-                scenarios[t, 0, :] = init_o + np.random.rand(n_scen)*1e-6
+                scenarios[t, 0, :] = init_o + rng.uniform(size=n_scen)*1e-6
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, 1:, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
@@ -175,7 +184,7 @@ class ScenGen:
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
-        return scenarios + np.random.randn(*scenarios.shape)*1e-9
+        return scenarios + rng.normal(size=scenarios.shape)*1e-9
 
 
 def tree_gen_chunk(predictions, trees):
-- 
2.43.0


From 6b0a76ba825f8a1fa3035d4aada349b1afbe72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 39/54] fix: NeuralGas trees do not depend on the global random
 state

---
 pyforecaster/tree_builders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 0de4d01..164db80 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -150,6 +150,8 @@ class NeuralGas(ScenarioTree):
         tree, tree_scens, tree_vals = self.init_vals(tree, tree_scens, tree_vals, scens)
         k = 0
         rel_dev = 1
+        # own generator: the same scenarios give the same tree, whoever else draws random numbers
+        rng = np.random.RandomState(0)
         if do_plot:
             fig, ax = plt.subplots(1, 1)
         while rel_dev > tol and k < k_max:
@@ -166,7 +168,7 @@ class NeuralGas(ScenarioTree):
                 plt.savefig(join(self.savepath, 'step_{:03d}'.format(k)))
                 plt.pause(0.01)
             # draw random realization
-            scen = jnp.ravel(scens[:, np.random.choice(scens.shape[1], 1)])
+            scen = jnp.ravel(scens[:, rng.choice(scens.shape[1], 1)])
             # compute distances and ranks from tree scenarios
             dists = self.compute_distances(tree_scens, scen)
             ranks = np.argsort(dists)
-- 
2.43.0


From 9df6d96927dc423d4fe2f06e1b04963e5d9f81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 40/54] fix: add_holidays does not write into the frame it is
 given

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 24ad15b..2c27cc8 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -100,7 +100,7 @@ class Formatter:
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
 
-
+        x = x.copy()
         x['holidays'] = 0
         x.loc[np.isin(x.index.date, bridges), 'holidays'] = 1
         x.loc[np.isin(x.index.date, long_weekends), 'holidays'] = 2
-- 
2.43.0


From 123c0adad3d7264cb166e5dcecba5a86c2636041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 41/54] fix: cat_encoding does not write into the frames it is
 given

---
 pyforecaster/formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 2c27cc8..e9c2a62 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -398,6 +398,7 @@ class Formatter:
             cat_features = self.auto_cat_feature_selection(df_train)
 
         self.logger.debug('encoding {} as categorical features'.format(cat_features))
+        df_train, df_test = df_train.copy(), df_test.copy()
         df_train[cat_features] = pd.Categorical(df_train[cat_features])
         df_test[cat_features] = pd.Categorical(df_test[cat_features])
 
-- 
2.43.0


From 13ae1018176a7bc1b34338d3e99c90a627d3429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 42/54] fix: summary_score does not relabel the forecasts it is
 given

---
 pyforecaster/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..d7499dd 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From 20d07cf4c5306eb89267918ca54065ddff95521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 43/54] fix: normalising and denormalising do not write into
 the frames they are given

---
 pyforecaster/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index e9c2a62..74039c9 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -307,6 +307,7 @@ class Formatter:
             return y, x
 
 
+        x = x.copy()
         normalizers = x[[nr.name for nr in self.target_normalizers]]
 
         # get normalizers names
@@ -317,6 +318,7 @@ class Formatter:
         if return_target:
             if isinstance(y.columns, pd.MultiIndex):
                 # we are normalizing a Multiindex Dataframe containing quantiles, indicated in level=1
+                y = y.copy()
                 for tau in y.columns.get_level_values(1).unique():
                     y_tau = y.loc[:, (slice(None), tau)]
                     y_tau = y_tau.droplevel(1, 1)
-- 
2.43.0


From c45c125497cde5c02c8c6635a0742e67354b6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 44/54] fix: reconciled forecasts are labelled with the series
 they belong to

---
 pyforecaster/reconciliation/reconciliation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..627724e 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -318,8 +318,8 @@ class HierarchicalReconciliation:
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        y_rec.columns = y_hat[self.ordered_cols].columns
+        return y_rec[y_hat.columns]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
-- 
2.43.0


From 72a698cafc84d24e127b0ed0f18e4c79cb10d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 45/54] fix: each step ahead is reconciled with the matrices
 fitted for it

---
 pyforecaster/reconciliation/reconciliation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 627724e..d90c9ab 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -35,6 +35,7 @@ class HierarchicalReconciliation:
         self.n_scenarios = n_scenarios
         self.errs_hat = None
         self.errs_tilde = None
+        self.rec_matrices = {}
     def get_unrolled_hierarchy(self):
         return self.hierarchy_flatten
 
@@ -183,6 +184,7 @@ class HierarchicalReconciliation:
         # fit reconciliation for all the steps ahead, keep errors, pre- and post-reconciliation
         self.steps = y_tr.columns.get_level_values(1).unique()
         errs_hat, errs_tilde = {}, {}
+        self.rec_matrices = {}
         target_names = y_hat.columns.get_level_values(1).unique()
         for t_name in tqdm(target_names):
             # ---------------------------- get base predictions, ground truth for sa ---------------------------------------
@@ -191,7 +193,8 @@ class HierarchicalReconciliation:
 
             # ---------------------------- fit, predict -------------------------------------------------------------------
             self.fit_reconciliation(y_sa, y_hat_sa, self.hierarchy)
-            y_tilde_sa = self.reconcile(y_hat_sa)
+            self.rec_matrices[t_name] = (self.p_matrix, self.g_matrix)
+            y_tilde_sa = self.reconcile(y_hat_sa, t_name)
 
             # ---------------------------- retrieve error samples from the training set ------------------------------------
 
@@ -214,7 +217,7 @@ class HierarchicalReconciliation:
         for t_name in tqdm(target_names):
             # get reconciled forecasts at this step ahead
             y_hat_sa = y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].droplevel(1, 1)
-            y_tilde[t_name] = self.reconcile(y_hat_sa)
+            y_tilde[t_name] = self.reconcile(y_hat_sa, t_name)
 
         y_tilde = pd.concat(y_tilde, axis=1).swaplevel(0, 1, axis=1).sort_index(axis=1)
 
@@ -246,7 +249,7 @@ class HierarchicalReconciliation:
         target_names = y_hat.columns.get_level_values(1).unique()
         if method == 'reconciled':
             y_tilde = pd.concat({t_name: self.reconcile(y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].
-                                                    droplevel(1, 1)) for t_name in target_names}, axis=1)
+                                                    droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
         scens = []
@@ -307,13 +310,15 @@ class HierarchicalReconciliation:
 
         return y_rec
 
-    def reconcile(self, y_hat):
+    def reconcile(self, y_hat, t_name=None):
+        # each step ahead is reconciled with what was learned for it; without t_name, with what was learned last
+        p_matrix, g_matrix = self.rec_matrices.get(t_name, (self.p_matrix, self.g_matrix))
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
+            y_rec = self.s_matrix @ p_matrix @ y_hat[self.ordered_cols].T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series]
             y_u = y_hat.loc[:, self.aggregated_series]
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
+            y_b_rec = y_b.T + g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
             y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-- 
2.43.0


From a298ef7f7d8e30d8738632eebaccdcef95f05fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 46/54] fix: predict_scenarios works for other stretches than
 the training data

---
 pyforecaster/reconciliation/reconciliation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index d90c9ab..27e1f49 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -255,10 +255,13 @@ class HierarchicalReconciliation:
         scens = []
         for h in range(24):
             h_idx_tr = self.errs_tilde.index.hour == h
+            h_idx = y_hat.index.hour == h
             if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
+                y_hat_h = y_hat.loc[h_idx]
             elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+                y_hat_h = y_tilde.loc[h_idx]
+            if not h_idx.any():
+                continue
             n_times = y_hat_h.shape[0]
             scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
                       .sample(n_times, replace=True)
-- 
2.43.0


From 8fdb8360cafca7e709687d857c839dc523ea6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 47/54] fix: scenarios of the base forecasts are made of the
 base forecasts' errors

---
 pyforecaster/reconciliation/reconciliation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 27e1f49..6402852 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -252,9 +252,10 @@ class HierarchicalReconciliation:
                                                     droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
+        errs = self.errs_hat if method == 'vanilla' else self.errs_tilde
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
+            h_idx_tr = errs.index.hour == h
             h_idx = y_hat.index.hour == h
             if method == 'vanilla':
                 y_hat_h = y_hat.loc[h_idx]
@@ -263,7 +264,7 @@ class HierarchicalReconciliation:
             if not h_idx.any():
                 continue
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            scens.append(pd.concat({s: y_hat_h + errs.loc[h_idx_tr]
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From f13406539d9669e16b493978e4863d9cc2cdc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 48/54] fix: base quantile forecasts of a hierarchy can be
 asked for

---
 pyforecaster/reconciliation/reconciliation.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 6402852..5748e96 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -3,7 +3,7 @@ import pandas as pd
 from sklearn.covariance import GraphicalLassoCV, ShrunkCovariance
 from pyforecaster.forecaster import LinearForecaster
 from tqdm import tqdm
-from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
+from pyforecaster.utilities import convert_multiindex_pandas_to_tensor
 from pyforecaster.utilities import get_logger
 import seaborn as sb
 from pyforecaster.plot_utils import plot_scenarios_from_multilevel
@@ -102,21 +102,13 @@ class HierarchicalReconciliation:
 
         return y_hat
     def get_quantiles(self, x: pd.DataFrame, level='bottom'):
-        steps_ahead = len(self.steps)
         if level == 'bottom':
             bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
-            q_hat = pd.concat({k: from_tensor_to_pdmultiindex(
-                    self.models_dict['bottom'].predict_quantiles(
-                        x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    bottom_series}, axis=1)
+            q_hat = pd.concat({k: self.models_dict['bottom'].predict_quantiles(
+                        x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in bottom_series}, axis=1)
         elif level == 'aggregations':
-            q_hat = pd.concat(
-                {k: from_tensor_to_pdmultiindex(
-                    self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    self.hierarchy.keys()},
-                axis=1)
+            q_hat = pd.concat({k: self.models_dict[k].predict_quantiles(
+                        x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in self.hierarchy.keys()}, axis=1)
         elif level == 'all':
             q_hat_bottom = self.get_quantiles(x, level='bottom')
             q_hat_aggr = self.get_quantiles(x, level='aggregations')
-- 
2.43.0


From 6776b278cf51faf7760a5970d1a44378f20e6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 49/54] fix: compute_kpis compares the quantile forecasts of
 each series with its own targets

---
 pyforecaster/reconciliation/reconciliation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 5748e96..f04404f 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -377,7 +377,8 @@ class HierarchicalReconciliation:
         target_names = hat.columns.get_level_values(1).unique()
         for s in target_names:
             hat_s = convert_multiindex_pandas_to_tensor(hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1))
-            y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)
+            # quantile forecasts are compared by position: the targets are put in the order of the forecasts
+            y_mat_s = y_mat.loc[hat.index, (slice(None), [s])].droplevel(1, 1)[hat.columns.get_level_values(0).unique()]
             kpi[s] = metric(hat_s, y_mat_s, **metric_kwargs).T
             if kpi[s].index.nlevels == 2:
                 kpi[s] = kpi[s].unstack(level=0)
-- 
2.43.0


From c12f37648059097128938c5b7f195964f1c4d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 50/54] fix: normalisation touches only the target and the
 features derived from it

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 74039c9..720c021 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -331,7 +331,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -344,7 +344,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 258045f8f68a391a73280dcabd5a878bdb372dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 51/54] fix: metadata of lagged and nested bins belong to the
 columns they are listed under

---
 pyforecaster/formatter.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 720c021..cd90c5c 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -830,21 +830,17 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
-                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                # one row per generated column, in the order of trans_names
+                bins = np.arange(len(self.agg_bins) - 1)
                 if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
+                    lags_and_fun = [(f, float(l), i) for l, i, f in product(lag_steps, bins, function_names)]
                 else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                    lags_and_fun = [(f, float(l), i) for l, f, i in product(lag_steps, function_names, bins)]
+                metadata_n = pd.DataFrame([lf[:2] for lf in lags_and_fun], columns=['function', 'lag'], index=trans_names)
+                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for _, l, i in lags_and_fun]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for _, l, i in lags_and_fun]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From dec7414650dd7c357a6ea66d9cfa33f682f168ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 52/54] fix: optimising through a network uses the network as
 it is now, also next to other optimisations

---
 .../forecasting_models/neural_models/ICNN.py  | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..8bc5f2d 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -371,15 +371,15 @@ class PICNN(NN):
         inputs = inputs.copy()
         normalized_inputs, _ = self.get_normalized_inputs(inputs)
         x, y = normalized_inputs
-        def _objective(y, x, **objective_kwargs):
-            return objective(self.predict_batch(self.pars, [x, y]), y, **objective_kwargs)
+        def _objective(y, x, pars, **objective_kwargs):
+            return objective(self.predict_batch(pars, [x, y]), y, **objective_kwargs)
 
         # if the objective changes from one call to another, you need to recompile it. Slower but necessary
         if recompile_obj or self.iterate is None:
             @jit
-            def iterate(x, y, opt_state, **objective_kwargs):
+            def iterate(x, y, opt_state, pars, **objective_kwargs):
                 for i in range(10):
-                    values, grads = value_and_grad(partial(_objective, **objective_kwargs))(y, x)
+                    values, grads = value_and_grad(partial(_objective, **objective_kwargs))(y, x, pars)
                     if vanilla_gd:
                         y -= grads * 1e-1
                     else:
@@ -387,14 +387,16 @@ class PICNN(NN):
                         y = optax.apply_updates(y, updates)
                 return y, values
             self.iterate = iterate
+        else:
+            iterate = self.iterate
 
         opt_state = self.inverter_optimizer.init(y)
-        y, values_old = self.iterate(x, y, opt_state, **objective_kwargs)
+        y, values_old = iterate(x, y, opt_state, self.pars, **objective_kwargs)
         values_init = np.copy(values_old)
 
         # do 10 iterations at a time to speed up, check for convergence
         for i in range(n_iter//10):
-            y, values = self.iterate(x, y, opt_state, **objective_kwargs)
+            y, values = iterate(x, y, opt_state, self.pars, **objective_kwargs)
             rel_improvement = (values_old - values) / (np.abs(values_old)+ 1e-12)
             values_old = values
             if rel_improvement < rel_tol:
@@ -697,30 +699,31 @@ class LatentStructuredPICNN(PICNN):
         normalized_inputs, _ = self.get_normalized_inputs(inputs)
         x, y = normalized_inputs
 
-        def _preds_and_regularizations(ctrl_embedding, x):
-            preds = latent_pred(self.pars, self.model, x, ctrl_embedding)
-            ctrl_reconstruct = decode(self.pars, self.model, x, ctrl_embedding)
-            preds_reconstruct, _ , _ = self.predict_batch_training(self.pars, [x, ctrl_reconstruct])
+        def _preds_and_regularizations(ctrl_embedding, x, pars):
+            preds = latent_pred(pars, self.model, x, ctrl_embedding)
+            ctrl_reconstruct = decode(pars, self.model, x, ctrl_embedding)
+            preds_reconstruct, _ , _ = self.predict_batch_training(pars, [x, ctrl_reconstruct])
             # implicit_regularization_loss = jnp.mean((preds_reconstruct - preds)**2)
-            ctrl_embedding_reconstruct = encode(self.pars, self.model, x, ctrl_reconstruct)
+            ctrl_embedding_reconstruct = encode(pars, self.model, x, ctrl_reconstruct)
             implicit_regularization_on_ctrl_loss = jnp.mean((ctrl_embedding_reconstruct - ctrl_embedding)**2)
             regularization_loss = implicit_regularization_on_ctrl_loss #+ implicit_regularization_loss
             return preds, ctrl_reconstruct, regularization_loss
 
-        def _objective(ctrl_embedding, x, weight=0, **objective_kwargs):
-            preds, ctrl_reconstruct, regularization_loss = _preds_and_regularizations(ctrl_embedding, x)
+        def _objective(ctrl_embedding, x, pars=None, weight=0, **objective_kwargs):
+            pars = self.pars if pars is None else pars
+            preds, ctrl_reconstruct, regularization_loss = _preds_and_regularizations(ctrl_embedding, x, pars)
             return objective(preds, ctrl_reconstruct, **objective_kwargs) + (weight * regularization_loss).ravel()[0]
 
         self._objective = _objective
         # if the objective changes from one call to another, you need to recompile it. Slower but necessary
         if recompile_obj or self.iterate is None:
             @jit
-            def iterate(x, y, opt_state, lagrangian=0, **objective_kwargs):
+            def iterate(x, y, opt_state, pars, lagrangian=0, **objective_kwargs):
                 ctrl_embedding_history = []
                 values_history = []
                 for i in range(10):
                     ctrl_embedding_history.append(y)
-                    values, grads = value_and_grad(partial(_objective, weight=lagrangian, **objective_kwargs))(y, x)
+                    values, grads = value_and_grad(partial(_objective, weight=lagrangian, **objective_kwargs))(y, x, pars)
                     #lagrangian = lagrangian +  0.01 * self.inverter_learning_rate  * jnp.maximum(_preds_and_regularizations(y, x)[-1], 0)
                     if vanilla_gd:
                         y -= grads * 1e-1
@@ -730,10 +733,12 @@ class LatentStructuredPICNN(PICNN):
                     values_history.append(values)
                 return y, values, ctrl_embedding_history, values_history, lagrangian
             self.iterate = iterate
+        else:
+            iterate = self.iterate
 
         _, ctrl_embedding, ctrl_reconstruct = self.predict_batch_training(self.pars, [x, y])
         opt_state = self.inverter_optimizer.init(ctrl_embedding)
-        ctrl_embedding, values_old, ctrl_embedding_history_0, values_history_0, lagrangian = self.iterate(x, ctrl_embedding, opt_state, **objective_kwargs)
+        ctrl_embedding, values_old, ctrl_embedding_history_0, values_history_0, lagrangian = iterate(x, ctrl_embedding, opt_state, self.pars, **objective_kwargs)
         values_init = np.copy(values_old)
 
         l = vmap(jit(partial(latent_pred, params=self.pars, model=self.model, x=x)), in_axes=(0))
@@ -744,7 +749,7 @@ class LatentStructuredPICNN(PICNN):
         lagrangian = jnp.array(0)
         init_constraint = 0
         for i in range(n_iter//10):
-            ctrl_embedding, values, ctrl_embedding_history, values_history, lagrangian = self.iterate(x, ctrl_embedding, opt_state, lagrangian=lagrangian, **objective_kwargs)
+            ctrl_embedding, values, ctrl_embedding_history, values_history, lagrangian = iterate(x, ctrl_embedding, opt_state, self.pars, lagrangian=lagrangian, **objective_kwargs)
             rel_improvement = (values_old - values) / (np.abs(values_old)+ 1e-12)
             values_old = values
             if i%10==0:
-- 
2.43.0


From 4b98330117143a81244cb28159ee9d8ae128c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 53/54] fix: a loaded network optimises with the learning rate
 it was saved with

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 8bc5f2d..d122f5e 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -318,6 +318,8 @@ class PICNN(NN):
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
                          normalize_target, stopping_rounds, subtract_mean_when_normalizing, causal_df,
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
+        # settings found in load_path are only known now
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
 
 
     def set_arch(self):
-- 
2.43.0


From ab9dbb008a318b11623c1c87d82bf26867d3323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 54/54] fix: one formatter can be used by several threads

---
 pyforecaster/formatter.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index cd90c5c..50f5a58 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -1,6 +1,7 @@
 #import category_encoders
 import functools
 import logging
+from copy import copy
 from functools import partial
 from itertools import product
 from multiprocessing import cpu_count
@@ -737,17 +738,20 @@ class Transformer:
 
             data = x.copy() if augment else pd.DataFrame(index=x.index)
 
-        self.metadata = pd.DataFrame()
+        # metadata are published once they are complete, as other threads may be reading or writing them
+        metadata = pd.DataFrame()
         for name in self.names:
             d = x[name].copy() if x is not None else None
 
             # infer sampling time
             dt = self.dt if self.dt is not None else x[name].index.to_series().diff().median()
 
-            if self.agg_freq is None:
-                self.agg_freq = dt
-            elif isinstance(self.agg_freq, (np.int8, np.int32, np.int64, int)):
-                self.agg_freq *= dt
+            agg_freq = self.agg_freq
+            if agg_freq is None:
+                agg_freq = dt
+            elif isinstance(agg_freq, (np.int8, np.int32, np.int64, int)):
+                agg_freq = agg_freq * dt
+            self.agg_freq = agg_freq
 
             # agg_steps = number of steps on which aggregation stats are retrieved
             # agg_time = time range on which aggregation stats are retrieved
@@ -756,7 +760,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(pd.Timedelta(agg_freq) / dt)
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
@@ -764,11 +768,11 @@ class Transformer:
             if self.functions:
                 function_names = [get_fun_name(s) for s in self.functions]
                 if self.agg_bins is None:
-                    hr_agg_freq = self.agg_freq if isinstance(self.agg_freq, str) else hr_timedelta(self.agg_freq.to_timedelta64())
+                    hr_agg_freq = agg_freq if isinstance(agg_freq, str) else hr_timedelta(agg_freq.to_timedelta64())
                     trans_names = ['{}_{}_{}'.format(name, hr_agg_freq, p) for p in function_names]
 
                     if not simulate:
-                        d = d.rolling(self.agg_freq, min_periods=agg_steps).agg(self.functions)
+                        d = d.rolling(agg_freq, min_periods=agg_steps).agg(self.functions)
                         d.columns = trans_names
                 else:
                     if not simulate:
@@ -778,6 +782,7 @@ class Transformer:
                                            product(np.arange(len(self.agg_bins) - 1), function_names)]
                             d = pd.DataFrame(d)
                             for i, tr in enumerate(self.transformers):
+                                tr = copy(tr)
                                 tr.names = [name]
                                 d = tr.transform(d)
                             del d[name]
@@ -824,7 +829,7 @@ class Transformer:
 
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['lag', 'function'], index=trans_names)
 
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
 
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
@@ -837,14 +842,15 @@ class Transformer:
                 else:
                     lags_and_fun = [(f, float(l), i) for l, f, i in product(lag_steps, function_names, bins)]
                 metadata_n = pd.DataFrame([lf[:2] for lf in lags_and_fun], columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
                 metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for _, l, i in lags_and_fun]
                 metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for _, l, i in lags_and_fun]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-            self.metadata = pd.concat([self.metadata, metadata_n])
+            metadata = pd.concat([metadata, metadata_n])
+        self.metadata = metadata
         if not simulate:
             self.generated_features = set(data.columns) - set(x.columns)
             return data
-- 
2.43.0

