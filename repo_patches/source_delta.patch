From 251687b7fdcc7b8bff8db8ccbd8ef73c1aed7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 01/19] fix: join tree of a disconnected network

Cliques without common variables were never candidates for joining, so
querying a network of several components raised IndexError or looped for
ever (for example after an intervention that cuts a node off its parents).
---
 causalnex/ebaybbn/bbn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..13e2c73 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -988,8 +988,9 @@ def build_join_tree(dag, clique_priority_func=priority_func):
     # Initialize the SepSets
     S = set()  # track the sepsets
     for X, Y in combinations(cliques, 2):
-        if X.nodes.intersection(Y.nodes):
-            S.add(SepSet(X, Y))
+        # Cliques without common variables are candidates too (with an empty
+        # sepset): they join the components of a disconnected network.
+        S.add(SepSet(X, Y))
     sepsets_inserted = 0
     while sepsets_inserted < (len(cliques) - 1):
         # Adding in name to make this sort deterministic
-- 
2.43.0


From 0c126503a43575e024e79280f60a96ed78827539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:25 +0000
Subject: [PATCH 02/19] fix: sampling never picks an impossible state

A random number of exactly 0 selected the first state even when its
probability is 0 (the next query then fails), and a cumulative sum left
below 1 by rounding could run off the end of the list.
---
 causalnex/ebaybbn/bbn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 13e2c73..8e0f2f3 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -178,9 +178,10 @@ class BBN:
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
-                r = random()
+                # Scaled by the total mass, which rounding can leave short of 1
+                r = random() * cumulative_density[-1][1]
                 i = 0
-                while r > cumulative_density[i][1]:
+                while r >= cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 3f30c61438a182da109c4c55b4baecf10f9a1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 03/19] fix: reject data types that merely contain a
 permissible type

---
 .../structure/categorical_variable_mapper.py  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..58c0520 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -252,6 +252,14 @@ class VariableFeatureMapper:
         return len(self.feature_list)
 
 
+def _is_known_type(data_type: str) -> bool:
+    """Whether a data type is permissible, leaving the cardinality of categorical types aside"""
+    base_type, colon, _ = data_type.partition(":")
+    return base_type in VariableFeatureMapper.PERMISSIBLE_TYPES and (
+        not colon or base_type == VariableFeatureMapper.EXPANDABLE_TYPE
+    )
+
+
 def validate_schema(
     nodes: Union[List[Hashable], Set[Hashable], NodeView],
     default_type: str = "continuous",
@@ -276,7 +284,7 @@ def validate_schema(
         ValueError: for unknown data type
         ValueError: for missing cardinality for categorical variables
     """
-    if not any(x in default_type for x in VariableFeatureMapper.PERMISSIBLE_TYPES):
+    if not _is_known_type(default_type):
         raise ValueError(
             "Unknown default data type. Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -288,16 +296,13 @@ def validate_schema(
     schema = {k: schema.get(k, default_type) for k in nodes}
 
     # verify if the data type is supported
-    if not all(
-        any(t in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)
-        for x in schema.values()
-    ):
+    if not all(_is_known_type(x) for x in schema.values()):
         raise ValueError(
             "Unknown data type for variable(s) {}, ".format(
                 [
                     k
                     for k, v in schema.items()
-                    if v not in VariableFeatureMapper.PERMISSIBLE_TYPES
+                    if not _is_known_type(v)
                 ]
             )
             + "Supported data types are {}".format(
@@ -308,7 +313,7 @@ def validate_schema(
     missing_cardinality = {
         k
         for k, v in schema.items()
-        if "categorical" in v and re.match(r"^categorical:[1-9]+[0-9]*", v) is None
+        if "categorical" in v and re.fullmatch(r"categorical:[1-9][0-9]*", v) is None
     }
 
     if missing_cardinality:
-- 
2.43.0


From b13c4e95e45c4e8cca179aa0b28f920e0fb06ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 04/19] fix: reject schemas whose one-hot feature names
 coincide

---
 causalnex/structure/categorical_variable_mapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 58c0520..3ed95cd 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -89,6 +89,14 @@ class VariableFeatureMapper:
             + cat_feature_list
         )
 
+        n_non_categorical = len(self.feature_list) - len(cat_feature_list)
+        n_features = n_non_categorical + sum(cat_card_dict.values())
+        if len(set(self.feature_list)) != n_features:
+            raise ValueError(
+                "Ambiguous feature names: a one-hot feature of a categorical variable "
+                "has the same name as another feature."
+            )
+
         # 2. we assign an index to each feature
         # dictionary: feature to index
         self._fte_index_dict = {fte: ix for ix, fte in enumerate(self.feature_list)}
-- 
2.43.0


From 6e1a98d47a3a77e10641ae74bf8961a4b906723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 05/19] fix: plot structures whose nodes are tuples

---
 causalnex/plots/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..fb03a40 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -197,7 +197,7 @@ def _add_attributes(
 
     # shift labels to be above nodes
     for node in _sm.nodes:
-        _sm.nodes[node]["label"] = "%s\n\n " % node
+        _sm.nodes[node]["label"] = "%s\n\n " % (node,)
 
     # apply node attributes (start with default, then apply any custom)
     _all_node_attr = {**NODE_STYLE.NORMAL}
-- 
2.43.0


From 9cce048d4f749ba3f3ce22ea2d42f818f06f2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 06/19] fix: importing causalnex.plots before
 causalnex.structure

---
 causalnex/plots/plots.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index fb03a40..4f70764 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -29,15 +29,16 @@
 import re
 from collections import namedtuple
 from copy import deepcopy
-from typing import Dict, Tuple
+from typing import TYPE_CHECKING, Dict, Tuple
 
 import networkx as nx
 
-from causalnex.structure.structuremodel import StructureModel
+if TYPE_CHECKING:
+    from causalnex.structure.structuremodel import StructureModel
 
 
 def plot_structure(
-    sm: StructureModel,
+    sm: "StructureModel",
     prog: str = "neato",
     all_node_attributes: Dict[str, str] = None,
     all_edge_attributes: Dict[str, str] = None,
@@ -187,12 +188,12 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
 
 
 def _add_attributes(
-    sm: StructureModel,
+    sm: "StructureModel",
     all_node_attributes: Dict[str, str] = None,
     all_edge_attributes: Dict[str, str] = None,
     node_attributes: Dict[str, Dict[str, str]] = None,
     edge_attributes: Dict[str, Dict[str, str]] = None,
-) -> StructureModel:
+) -> "StructureModel":
     _sm = deepcopy(sm)
 
     # shift labels to be above nodes
-- 
2.43.0


From 4d115a101ae5ca9941c255212422c35138f589da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 07/19] fix: point interventions on states that are not
 integers

---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..263d5e2 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From 44ad9e36b2688f8641255de3143c08a4c7fe87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 08/19] fix: accept intervention distributions that sum to 1 up
 to rounding

---
 causalnex/inference/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 263d5e2..18712d4 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -160,7 +160,8 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        # probabilities such as 0.1, 0.2 and 0.7 sum to 1 only up to rounding
+        if abs(sum(state.values()) - 1.0) > 1e-8:
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
-- 
2.43.0


From a858ce129e2a197dcef49b2315a98d74e05f8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 09/19] fix: compare each state's prediction with its own
 ground truth in roc_auc

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..37fa3c1 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # order the columns to match those of ground_truth
+    predictions = predictions[
+        ["{n}_{s}".format(n=node, s=state) for state in ground_truth.columns]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From 12a0e665c1c353391fbe23ec260c8cf9ce69fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 10/19] fix: name states, not their indices, when predicting
 from incomplete data

---
 causalnex/network/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..7ee120e 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -481,10 +480,14 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)[[node]]
 
+        # pgmpy predicts the index of a state, so convert back to the state
+        states = {index: state for state, index in self._node_states[node].items()}
+        predictions[node] = predictions[node].map(states)
+
         return predictions.rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
@@ -563,20 +566,18 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # keep only probabilities for the node we are interested in, which pgmpy
+        # names by the index of the state
+        states = self._node_states[node]
+        probability = probability[
+            ["{n}_{i}".format(n=node, i=index) for index in states.values()]
+        ]
+        probability.columns = ["{n}_{s}".format(n=node, s=state) for state in states]
 
         return probability
-- 
2.43.0


From b344ef956b625151ee3bf611c9f974c3f43d07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 11/19] fix: label lagged columns of generated dynamic data by
 their lag

---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..7d17190 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # ordered as the lagged values are stored: all variables at lag 1, then at lag 2...
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.rsplit("_lag", 1)[1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From 3f3d55d45c964cf084457eb7e383fe10751b61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 12/19] fix: keep the nodes of an expanded categorical column
 apart from columns of the same name

---
 causalnex/structure/pytorch/dist_type/categorical.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/dist_type/categorical.py b/causalnex/structure/pytorch/dist_type/categorical.py
index ee590d0..5457404 100644
--- a/causalnex/structure/pytorch/dist_type/categorical.py
+++ b/causalnex/structure/pytorch/dist_type/categorical.py
@@ -292,6 +292,12 @@ class DistTypeCategorical(ExpandColumnsMixin, DistTypeBase):
         """
         new_idx_cols = {}
         colname = idx_col.pop(self.idx_group[0])
+        taken = set(idx_col.values())
         for catidx, idx in enumerate(self.idx_group):
-            new_idx_cols[idx] = self.make_node_name(colname, catidx)
+            name = self.make_node_name(colname, catidx)
+            # a generated name must not coincide with the name of another column
+            while catidx and name in taken:
+                name += "_"
+            taken.add(name)
+            new_idx_cols[idx] = name
         return {**idx_col, **new_idx_cols}
-- 
2.43.0


From 122b072d5ea1553a7a11a586da024c4dcd6913f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 13/19] fix: convert only the target when a DAG regressor or
 classifier predicts (ordinal features)

---
 causalnex/structure/pytorch/core.py          | 9 +++++++--
 causalnex/structure/pytorch/sklearn/_base.py | 8 +++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..7df4b85 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -184,7 +184,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         x = x.squeeze(dim=2)  # [n, d]
         return x
 
-    def reconstruct_data(self, X: np.ndarray) -> np.ndarray:
+    def reconstruct_data(
+        self, X: np.ndarray, dist_types: List[DistTypeBase] = None
+    ) -> np.ndarray:
         """
         Performs X_hat reconstruction,
         then converts latent space to original data space via link function.
@@ -192,6 +194,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         Args:
             X: input data used to reconstruct
 
+            dist_types: distribution types to convert to the original data space.
+            All of them if None.
+
         Returns:
             reconstructed data
         """
@@ -208,7 +213,7 @@ class NotearsMLP(nn.Module, BaseEstimator):
             X_hat = self(X)
 
             # recover each one of the latent space projections
-            for dist_type in self.dist_types:
+            for dist_type in self.dist_types if dist_types is None else dist_types:
                 X_hat = dist_type.inverse_link_function(X_hat)
 
             return np.asarray(X_hat.cpu().detach().numpy().astype(np.float64))
diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..3beab80 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -275,11 +275,13 @@ class DAGBase(
 
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
-        # use base solver to reconstruct data
-        X_hat = structure_learner.reconstruct_data(X)
-
         # get the target dist_type
         target_dist_type = self.graph_.nodes(data=True)[self._target]["dist_type"]
+
+        # use base solver to reconstruct data, only the target is converted:
+        # the link function of an ordinal feature does not keep the other columns
+        X_hat = structure_learner.reconstruct_data(X, dist_types=[target_dist_type])
+
         # pull off reconstructed y columns
         y_pred = target_dist_type.get_columns(X_hat)
 
-- 
2.43.0


From f49166dc1991e179fe32dbf20dfbeaf79b5d7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 14/19] fix: predict with standardized features for integer
 input

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3beab80..053e9b5 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -261,7 +261,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # copy as floats: integer arrays cannot hold standardized values
+            X = np.array(X, dtype=np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From aea8b337b8b2e9a7049bd37bbe9048b357f3d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 15/19] fix: keep rows of features and target together when one
 of them is an array

---
 causalnex/structure/pytorch/sklearn/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 053e9b5..716c81a 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -179,6 +179,11 @@ class DAGBase(
         check_X_y(X, y, y_numeric=True)
 
         # force X, y to DataFrame, Series for later calculations
+        # arrays take the index of their counterpart so that rows stay together
+        if isinstance(y, pd.Series) and not isinstance(X, pd.DataFrame):
+            X = pd.DataFrame(X, index=y.index)
+        elif isinstance(X, pd.DataFrame) and not isinstance(y, pd.Series):
+            y = pd.Series(y, index=X.index)
         X = pd.DataFrame(X)
         y = pd.Series(y)
         # force name so that name != None (causes errors in notears)
-- 
2.43.0


From 5df77f6d29f22d17184fadce89c3bb5570392fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 16/19] fix: classify text and boolean targets

---
 causalnex/structure/pytorch/sklearn/clf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..765a74f 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -94,8 +94,12 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
         # encode the categories to be numeric
         enc = LabelEncoder()
-        y = y.copy()
-        y[:] = enc.fit_transform(y)
+        y_encoded = enc.fit_transform(y)
+        # NOTE: the encoded target is a new object as y may not be able to hold numbers
+        if isinstance(y, pd.Series):
+            y = pd.Series(y_encoded, index=y.index, name=y.name)
+        else:
+            y = y_encoded
         # store the classes from the LabelEncoder
         self.classes_ = enc.classes_
 
-- 
2.43.0


From ebd5c11189a3c22e88076e030fef5965c8ec1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 17/19] fix: coefficients and intercept of an ordinal target

---
 causalnex/structure/pytorch/sklearn/clf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 765a74f..d3a7308 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -157,6 +157,10 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
     @property
     def _target_node_names(self) -> List[str]:
+        # an ordinal target is a single node for all classes
+        if self._target_dist_type == "ord":
+            return [self._target]
+
         # target node names are build according to
         target_nodes = []
         for catidx in range(len(self.classes_)):
-- 
2.43.0


From 9ed906f048caeb9931b11fcdd987702370feec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 18/19] fix: same coefficients for every class when features
 are categorical

---
 causalnex/structure/pytorch/sklearn/_base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 716c81a..e8c2e64 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -312,8 +312,17 @@ class DAGBase(
         """
         check_is_fitted(self)
 
+        # categorical features have further nodes, list all of them for every target node
+        nodes = self.graph_.nodes(data="dist_type")
+        expanded = [
+            node
+            for feature in self._features
+            for node, dist_type in nodes
+            if node != feature and dist_type is nodes[feature]
+        ]
+
         # build base data series
-        edges = pd.Series(index=self._features)
+        edges = pd.Series(index=[*self._features, *expanded])
 
         # iterate over all edges
         for (i, j, w) in self.graph_.edges(data=data):
-- 
2.43.0


From bb0b4cc35ab5ec139ca04fd81d36ca1e59637165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 19/19] fix: warn when PyTorch NOTEARS stops without converging

---
 causalnex/structure/pytorch/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index 7df4b85..2acb9ff 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -247,14 +247,13 @@ class NotearsMLP(nn.Module, BaseEstimator):
         rho, alpha, h = 1.0, 0.0, np.inf
         X_torch = torch.from_numpy(x).float().to(self.device)
 
-        for n_iter in range(max_iter):
+        for _ in range(max_iter):
             rho, alpha, h = self._dual_ascent_step(X_torch, rho, alpha, h, rho_max)
             if h <= h_tol or rho >= rho_max:
                 break
-            if n_iter == max_iter - 1 and h > h_tol:
-                self._logger.warning(
-                    "Failed to converge. Consider increasing max_iter."
-                )
+
+        if h > h_tol:
+            self._logger.warning("Failed to converge. Consider increasing max_iter.")
 
         # calculate the adjacency matrix after the fitting is finished
         self.adj = (
-- 
2.43.0

