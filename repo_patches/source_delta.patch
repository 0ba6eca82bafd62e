From ba07deb58e9f992fc564a300e0617334e1dc6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 01/52] fix: leave no evidence cache or seed behind when
 sampling fails

---
 simple_einet/sampling_utils.py | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..28878d4 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -46,28 +46,29 @@ def sampling_context(
         torch.manual_seed(seed)
 
     # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in spn.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = spn(evidence, marginalized_scopes)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the sampling itself has failed)
         if evidence is not None:
             for module in spn.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From c6943c129c6a4082dfb748cedfc8b299ce2177dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 02/52] fix: conditional sampling of ConvPc calls the model
 instead of a missing method, and cleans up on failure

---
 simple_einet/conv_pc.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..cf3143e 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -116,28 +116,29 @@ def sampling_context(
         torch.manual_seed(seed)
 
     # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model.log_likelihood(x=evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in model.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = model(evidence)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the sampling itself has failed)
         if evidence is not None:
             for module in model.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
-- 
2.43.0


From e413a01dd1049f536fdb52946cc73c035df387a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 03/52] fix: draw the class uniformly when no class is given

---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..52d2f7c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -465,7 +465,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 95644ce060004a2628d411117cfba05dca1c6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 04/52] fix: draw the class from its posterior when sampling
 with evidence

---
 simple_einet/einet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 52d2f7c..4b282e6 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -201,6 +201,11 @@ class Einet(nn.Module):
         # Final shape check
         assert x.shape == (batch_size, self.config.num_classes)
 
+        # Save the class likelihoods if the input cache is enabled, such that sampling with evidence draws the class
+        # from its posterior
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root._input_cache["in"] = x.view(batch_size, 1, self.config.num_classes, 1)
+
         return x
 
     def _forward_layers(self, x):
-- 
2.43.0


From 02cc945f76d2ea9f0a026b7b87b2f089e65fb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 05/52] fix: sampling with a list of classes and differentiable
 sampling of a given class

---
 simple_einet/einet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 4b282e6..751f893 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -589,6 +589,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each given class
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -625,22 +628,19 @@ class Einet(nn.Module):
                         # A list of classes was given, one element for each sample
                         indices = torch.tensor(class_index, device=self.__device).view(-1, 1)
                         if is_differentiable:
-                            # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
+                            indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
                         if is_differentiable:
-                            # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
-- 
2.43.0


From 01a8f8bdca5b6a13989d6d4dd122cfed28cd6891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 06/52] fix: FactorizedLeaf uses its wiring also if every
 region has a single feature

---
 simple_einet/layers/factorized_leaf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..4ba4516 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -83,9 +83,6 @@ class FactorizedLeaf(AbstractLayer):
         # Factorize input channels
         x = x.sum(dim=1)
 
-        if self.num_features == self.num_features_out:
-            return x
-
         # Merge scopes by naive factorization
         x = torch.einsum("bicr,ior->bocr", x, self.scopes)
 
-- 
2.43.0


From c137bcba5b59c416a91666679e04857f895b30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 07/52] fix: FactorizedLeafSimple samples each feature from the
 leaf of its own region

---
 simple_einet/layers/factorized_leaf.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 4ba4516..b61c30d 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -330,11 +330,7 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
-            indices_out = indices_out.reshape(
-                indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
-            )
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
 
             # Invert permutation
             indices_out = indices_out[:, self.inverse_permutation]
@@ -347,9 +343,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
-            indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
+            indices_out = indices_out.unsqueeze(1).expand(-1, self.base_leaf.num_channels, -1)
 
             # Invert permutation
             indices_out = indices_out[:, :, self.inverse_permutation]
@@ -370,11 +365,7 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
-            indices_out = indices_out.reshape(
-                indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
-            )
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
 
             # Invert permutation
             indices_out = indices_out[:, self.inverse_permutation]
@@ -389,9 +380,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
-            indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
+            indices_out = indices_out.unsqueeze(1).expand(-1, self.base_leaf.num_channels, -1)
 
             # Invert permutation
             indices_out = indices_out[:, :, self.inverse_permutation]
-- 
2.43.0


From d200712638126a413084fcfa27b5d6c68991cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 08/52] fix: differentiable return_leaf_params with a single
 repetition

---
 simple_einet/layers/factorized_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index b61c30d..4dd4599 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -376,7 +376,7 @@ class FactorizedLeafSimple(AbstractLayer):
 
             indices_out = indices_out.unsqueeze(-1)
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
+            indices_out = indices_out.unsqueeze(1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From 5b515b48fec25e11d558de86633b8151cea7ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 09/52] fix: return_leaf_params with the bottom-up structure

---
 .../layers/distributions/abstract_leaf.py        | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..b0c10b2 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -92,13 +92,16 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
         raise Exception(f"MPE not yet implemented for type {type(distribution)}")
 
 
-def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) -> torch.Tensor:
+def dist_sample(
+    distribution: dist.Distribution, ctx: SamplingContext = None, params: torch.Tensor = None
+) -> torch.Tensor:
     """
     Sample n samples from a given distribution.
 
     Args:
         distribution: Leaf distribution from which to sample from.
         ctx: Sampling context.
+        params: Parameters of the leaf layer (only used if ctx.return_leaf_params is set).
 
     Returns:
         torch.Tensor: Samples from the given distribution.
@@ -115,10 +118,10 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         from simple_einet.layers.distributions.normal import CustomNormal
 
         if ctx.return_leaf_params:
-            samples = distribution.get_params()
+            samples = params
 
             # Add batch dimension
-            samples = samples.unsqueeze(0)
+            samples = samples.unsqueeze(0).expand(ctx.num_samples, *[-1] * samples.dim())
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
@@ -156,8 +159,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
@@ -308,7 +311,8 @@ class AbstractLeaf(AbstractLayer, ABC):
             torch.Tensor: A tensor of shape (context.num_samples,) or (1,) containing the drawn samples.
         """
         d = self._get_base_distribution(ctx)
-        samples = dist_sample(distribution=d, ctx=ctx)
+        params = self.get_params() if ctx.return_leaf_params else None
+        samples = dist_sample(distribution=d, ctx=ctx, params=params)
         return samples
 
     def extra_repr(self):
-- 
2.43.0


From ebd1abd6fbbefe248b7d8252e6c4b95944b20bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 10/52] fix: parameters of a multi-distribution leaf in feature
 order

---
 simple_einet/layers/distributions/multidistribution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..5ff70ba 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -139,4 +139,9 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+        return params
-- 
2.43.0


From 622fd00df3af655d03e5b3763e96097104c62719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 11/52] fix: reject multi-distribution scopes that do not cover
 each feature exactly once

---
 simple_einet/layers/distributions/multidistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5ff70ba..078bd9b 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,7 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(range(num_features))
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
-- 
2.43.0


From a0516d6d5874007dea617c068bb5875d692f95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 12/52] fix: sampling with Bernoulli leaves

---
 simple_einet/layers/distributions/bernoulli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..e147f51 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,9 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
+
+    def get_params(self):
+        return self.probs.unsqueeze(-1)
-- 
2.43.0


From 963651aec27532edfb56a998220442928dafcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 13/52] fix: mode of a binomial leaf with success probability
 one

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index b0c10b2..e5d69ae 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,7 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From f9efff8fffe4e7da667802bd544ca29de3a124d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 14/52] fix: check_valid enforces bounds that are zero

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From 45212f676e1a08a5a859b57783892234ef38edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 15/52] fix: RatNormal respects a maximal mean of zero

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From 365be38e96cc074b608ab4bce3a01a66051c1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 16/52] fix: categorical leaves have a bin for each of the
 2^n_bits values

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From f54b4a10d42702d3c3e5a536b22b703cb321bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 17/52] fix: infinite continuous domain with numpy 2

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 66b2bb5..1ec7636 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -40,7 +40,7 @@ class Domain:
 
     @staticmethod
     def continuous_inf_support():
-        return Domain(min=np.NINF, max=np.inf, data_type=DataType.CONTINUOUS)
+        return Domain(min=-np.inf, max=np.inf, data_type=DataType.CONTINUOUS)
 
 
 
-- 
2.43.0


From 9cf1732389d9c8ae86746e4900eaea8f1b6501a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 18/52] fix: dropout of linsum and sum layers keeps at least
 one child of every sum

---
 simple_einet/layers/linsum.py | 7 ++++---
 simple_einet/layers/sum.py    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..43d8442 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -90,11 +90,12 @@ class LinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
             while invalid_index.any():
                 # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+                resampled = self._bernoulli_dist.sample(dropout_indices.shape)
+                dropout_indices = torch.where(invalid_index, resampled, dropout_indices)
+                invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
 
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..d0013e7 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -68,11 +68,12 @@ class SumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+            invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
             while invalid_index.any():
                 # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+                resampled = self._bernoulli_dist.sample(dropout_indices.shape)
+                dropout_indices = torch.where(invalid_index, resampled, dropout_indices)
+                invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
             dropout_indices = torch.log(1 - dropout_indices)
             x = x + dropout_indices
 
-- 
2.43.0


From 5a43637039e470667a776f2d2d75786c85bbd91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 19/52] fix: dropout of linsum2 layers drops children of sums
 instead of their outputs

---
 simple_einet/layers/linsum.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 43d8442..6160898 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -273,6 +273,18 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
+            while invalid_index.any():
+                # Resample only invalid indices
+                resampled = self._bernoulli_dist.sample(dropout_indices.shape)
+                dropout_indices = torch.where(invalid_index, resampled, dropout_indices)
+                invalid_index = dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -288,17 +300,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
-- 
2.43.0


From a30010d904bc7c2a17853c5a1e8fe9ca3c0efc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 20/52] fix: einsum layers apply the configured dropout

---
 simple_einet/layers/einsum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..e5cab1a 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -116,7 +117,13 @@ class EinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            invalid_index = dropout_indices.all(dim=2, keepdim=True)
+            while invalid_index.any():
+                # Resample only invalid indices
+                resampled = self._bernoulli_dist.sample(x.shape).bool()
+                dropout_indices = torch.where(invalid_index, resampled, dropout_indices)
+                invalid_index = dropout_indices.all(dim=2, keepdim=True)
+            x = x.masked_fill(dropout_indices, -np.inf)
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From 93ac679edb27c791e1ee95b9840b2f502b23b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 21/52] fix: sampling of linsum2 layers with an odd number of
 features

---
 simple_einet/layers/linsum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 6160898..8728eff 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -319,11 +319,6 @@ class LinsumLayer2(AbstractSumLayer):
 
             indices = indices.view(ctx.num_samples, -1)
 
-
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From bfb25a78cb68a821dfb96e1ef569ad483efed3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 22/52] fix: bottom-up structure with depth 0

---
 simple_einet/einet.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 751f893..909f70c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -357,6 +357,7 @@ class Einet(nn.Module):
 
         # Construct layers from bottom to top
         in_features = self.config.num_features
+        _num_sums_out = self.config.num_leaves  # The root sums are directly above the leaves if depth is 0
         for i in np.arange(start=0, stop=self.config.depth):
             # Choose number of input sum nodes
             # - if this is an intermediate layer, use the number of sum nodes from the previous layer
@@ -408,26 +409,15 @@ class Einet(nn.Module):
 
             intermediate_layers.append(layer)
 
-        if self.config.depth == 0:
-            # Create a single sum layer
-            layer = SumLayer(
-                num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
-                num_repetitions=self.config.num_repetitions,
-                dropout=self.config.dropout,
-            )
-            intermediate_layers.append(layer)
-
         # Construct final root product layer
         root_sum = SumLayer(
             num_sums_in=_num_sums_out,
             num_sums_out=self.config.num_classes,
-            num_features=intermediate_layers[-1].num_features_out,
+            num_features=in_features,
             num_repetitions=self.config.num_repetitions,
         )
         root_product = RootProductLayer(
-            num_features=intermediate_layers[-1].num_features_out, num_repetitions=self.config.num_repetitions
+            num_features=in_features, num_repetitions=self.config.num_repetitions
         )
 
         intermediate_layers.append(root_sum)
-- 
2.43.0


From a4b5e5cdcb5484576ba20445b6215d3b02867d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 23/52] fix: marginalise NaN entries also if scopes to
 marginalise are listed

---
 simple_einet/einet.py                              | 7 +++----
 simple_einet/layers/distributions/abstract_leaf.py | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 909f70c..3b6911b 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -680,10 +680,9 @@ class Einet(nn.Module):
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
                 evidence = evidence.view_as(samples)
-                if marginalized_scopes is None:
-                    mask = torch.isnan(evidence)
-                    evidence[mask] = samples[mask].to(evidence.dtype)
-                else:
+                mask = torch.isnan(evidence)
+                evidence[mask] = samples[mask].to(evidence.dtype)
+                if marginalized_scopes is not None:
                     evidence[:, :, marginalized_scopes] = samples[:, :, marginalized_scopes].to(evidence.dtype)
 
                 evidence = evidence.view(shape_evidence)
diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index e5d69ae..41db3fa 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -260,9 +260,9 @@ class AbstractLeaf(AbstractLayer, ABC):
                 s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
-        else:
-            if torch.any(mask := torch.isnan(x)):
-                x[mask] = self.marginalization_constant
+
+        if torch.any(mask := torch.isnan(x)):
+            x[mask] = self.marginalization_constant
 
         return x
 
-- 
2.43.0


From af6d417f04e89afab23f62d015027b22d92d55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 24/52] fix: multivariate normal leaves sample the features of
 the selected groups

---
 simple_einet/layers/distributions/multivariate_normal.py | 2 +-
 simple_einet/layers/factorized_leaf.py                   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/multivariate_normal.py b/simple_einet/layers/distributions/multivariate_normal.py
index efea9d7..6686907 100644
--- a/simple_einet/layers/distributions/multivariate_normal.py
+++ b/simple_einet/layers/distributions/multivariate_normal.py
@@ -138,7 +138,7 @@ class CustomMultivariateNormalDist:
         return x
 
     def sample(self, sample_shape: Tuple[int]) -> torch.Tensor:
-        samples = self.mv.sample(sample_shape=sample_shape)
+        samples = self.mv.rsample(sample_shape=sample_shape)
 
         samples = samples.view(
             sample_shape[0],
diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 4dd4599..53d0191 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -138,6 +138,7 @@ class FactorizedLeaf(AbstractLayer):
             scopes = index_one_hot(scopes, index=r_idx, dim=-1)
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
@@ -149,7 +150,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -191,7 +192,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_out.gather(dim=1, index=scopes)
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1, 1)
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1, num_params)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             # indices_in_gather: [batch_size, num_channels, num_features, 1]  (last dim is index into num_leaves)
             params = params.gather(dim=-2, index=indices_in_gather)  # -2 is num_leaves dim
             params.squeeze_(-2)  # Remove num_leaves dimension
@@ -339,6 +340,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
@@ -353,6 +355,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From c991bc9996868e57001376c1795cd323020f487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 25/52] fix: reject the bottom-up structure with multivariate
 leaves, which it cannot build

---
 simple_einet/einet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 3b6911b..4d1e1b3 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -74,6 +74,7 @@ class EinetConfig:
 
         if self.structure == "bottom-up":
             assert self.layer_type == "linsum", "Bottom-up structure only supports LinsumLayer due to handling of padding (not implemented for einsumlayer yet)."
+            assert cardinality == 1, "Bottom-up structure only supports leaves that cover a single feature."
 
         # Get minimum number of features present at the lowest layer (num_features is the actual input dimension,
         # cardinality in multivariate distributions reduces this dimension since it merges groups of size #cardinality)
-- 
2.43.0


From 96c6f6d4aac7b25fa636f914fceaf4577e96d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 26/52] fix: accept image batches that are not contiguous

---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 4d1e1b3..646f2ae 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -137,7 +137,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], self.config.num_channels, -1)
 
         assert x.dim() == 3
         assert (
@@ -680,7 +680,7 @@ class Einet(nn.Module):
                 # First make a copy such that the original object is not changed
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
-                evidence = evidence.view_as(samples)
+                evidence = evidence.reshape(samples.shape)
                 mask = torch.isnan(evidence)
                 evidence[mask] = samples[mask].to(evidence.dtype)
                 if marginalized_scopes is not None:
-- 
2.43.0


From f707c8da3c8f679f6d1b9ca25b53e49f4533ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 27/52] fix: ConvPc respects marginalized scopes and accepts
 image batches that are not contiguous

---
 simple_einet/conv_pc.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index cf3143e..4c810f6 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -88,6 +88,7 @@ def sampling_context(
     evidence: torch.Tensor | None = None,
     requires_grad=False,
     seed=None,
+    marginalized_scopes=None,
 ):
     """
     Context manager for sampling.
@@ -124,7 +125,7 @@ def sampling_context(
                     if hasattr(module, "_enable_input_cache"):
                         module._enable_input_cache()
 
-                _ = model(evidence)
+                _ = model(evidence, marginalized_scopes)
 
             # Run in context (nothing needs to be yielded)
             yield
@@ -629,9 +630,9 @@ class ConvPc(nn.Module):
         """Small hack to obtain the current device."""
         return next(self.parameters()).device
 
-    def _forward_leaf_data(self, x):
-        x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
-        x = self.leaf_data(x, marginalized_scopes=None)
+    def _forward_leaf_data(self, x, marginalized_scopes=None):
+        x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+        x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -647,9 +648,9 @@ class ConvPc(nn.Module):
 
         return x
 
-    def forward(self, x: torch.Tensor | None = None):
+    def forward(self, x: torch.Tensor | None = None, marginalized_scopes: List[int] | None = None):
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
-        x = self._forward_leaf_data(x)
+        x = self._forward_leaf_data(x, marginalized_scopes)
 
         for layer in self.layers:
             x = layer(x)
@@ -700,6 +701,7 @@ class ConvPc(nn.Module):
             evidence=evidence,
             requires_grad=True,
             seed=seed,
+            marginalized_scopes=marginalized_scopes,
         ):
 
             # Iterate over layers
@@ -726,8 +728,10 @@ class ConvPc(nn.Module):
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
-            evidence = evidence.view_as(samples)
+            evidence = evidence.reshape(samples.shape)
             mask = torch.isnan(evidence)
+            if marginalized_scopes is not None:
+                mask.flatten(-2)[..., marginalized_scopes] = True
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
 
-- 
2.43.0


From 2995b4fd12f4729ad685fd4bf50944f3ada10b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 28/52] fix: likelihoods of a mixture respect marginalized
 scopes

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..d92e02b 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -96,7 +96,7 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            lls = self.models[cluster_idx](data_tensor, marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From 158ab8ee94f9dce1d6be6623c8dd233cfd862bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 29/52] fix: a mixture assigns partially observed rows by their
 observed features

---
 simple_einet/mixture.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index d92e02b..e4dec29 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -67,14 +67,15 @@ class Mixture(nn.Module):
             self.centroids.data = self.centroids.data * self.config.leaf_kwargs["total_count"]
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
-        x = x.view(x.shape[0], -1)  # input needs to be [n, d]
+        x = x.reshape(x.shape[0], self.config.num_channels, -1).float()
         if marginalized_scopes is not None:
-            keep_idx = list(sorted([i for i in range(self.num_features) if i not in marginalized_scopes]))
-            centroids = self.centroids[:, keep_idx]
-            x = x[:, keep_idx]
-        else:
-            centroids = self.centroids
-        return self._kmeans.max_sim(a=x.float(), b=centroids)[1]
+            x = x.clone()
+            x[:, :, marginalized_scopes] = torch.nan
+        x = x.flatten(1)  # input needs to be [n, d]
+        if torch.isnan(x).any():
+            # Compare with the centroids on the observed features only
+            return torch.nansum((x.unsqueeze(1) - self.centroids) ** 2, dim=-1).argmin(dim=-1)
+        return self._kmeans.max_sim(a=x, b=self.centroids)[1]
 
     def _separate_data_by_cluster(self, x: torch.Tensor, marginalized_scope: List[int]):
         cluster_idxs = self._predict_cluster(x, marginalized_scope).tolist()
-- 
2.43.0


From de54b5ae9fdc02ad1e0dc52ecf69a0e7ae0fca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 30/52] fix: initialise a mixture if a cluster is empty

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index e4dec29..acecd37 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -57,7 +57,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From 6c59e53a9a71d89f9e547481d1b2f1dd59fbb323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 31/52] fix: unconditional MPE of a mixture returns the
 requested number of rows

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index acecd37..ad431bf 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -140,7 +140,7 @@ class Mixture(nn.Module):
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
-- 
2.43.0


From e04128b21c613cccde42ab51cdc5b3e45956183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 32/52] fix: the seed of a mixture's sample call covers the
 choice of components and conditional samples

---
 simple_einet/mixture.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index ad431bf..b78ab61 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -146,9 +146,12 @@ class Mixture(nn.Module):
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
             else:
                 # Sample from categorical over weights
-                cluster_idxs = (
-                    torch.distributions.Categorical(probs=self.mixture_weights).sample((num_samples,)).tolist()
-                )
+                generator = None
+                if seed is not None:
+                    generator = torch.Generator(device=self.mixture_weights.device).manual_seed(seed)
+                cluster_idxs = torch.multinomial(
+                    self.mixture_weights, num_samples, replacement=True, generator=generator
+                ).tolist()
 
         if evidence is None:
             # Sample without evidence
@@ -196,6 +199,8 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    seed=seed,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From 1cc9bc81b6638937f757bb3b4ddc554454529e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 33/52] fix: rows sampled from a mixture are in the order of
 their drawn components and classes

---
 simple_einet/mixture.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b78ab61..011323c 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -135,6 +135,9 @@ class Mixture(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each given class
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -155,15 +158,17 @@ class Mixture(nn.Module):
 
         if evidence is None:
             # Sample without evidence
-            separated_idxs = defaultdict(int)
-            for cluster_idx in cluster_idxs:
-                separated_idxs[cluster_idx] += 1
+            separated_idxs = defaultdict(list)
+            for sample_idx, cluster_idx in enumerate(cluster_idxs):
+                separated_idxs[cluster_idx].append(sample_idx)
 
             samples_all = []
-            for cluster_idx, num_samples_cluster in separated_idxs.items():
+            permutation = []
+            for cluster_idx, sample_idxs in separated_idxs.items():
+                permutation += sample_idxs
                 samples = self.models[cluster_idx].sample(
-                    num_samples_cluster,
-                    class_index=class_index,
+                    len(sample_idxs),
+                    class_index=[class_index[i] for i in sample_idxs] if isinstance(class_index, list) else class_index,
                     evidence=evidence,
                     is_mpe=is_mpe,
                     temperature_leaves=temperature_leaves,
@@ -174,16 +179,11 @@ class Mixture(nn.Module):
                 )
                 samples_all.append(samples)
 
-            samples = torch.cat(samples_all, dim=0)
+            samples_all = torch.cat(samples_all, dim=0)
 
-            # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
-            L.sort()
-            _, permutation = zip(*L)
-            permutation = torch.tensor(permutation, device=samples.device).view(-1)
-            samples_all = torch.cat(samples_all)
-            samples_sorted = samples_all[permutation]
-            samples = samples_sorted
+            # Sort results into the order in which the components were drawn
+            permutation = torch.tensor(permutation, device=samples_all.device)
+            samples = samples_all[torch.argsort(permutation)]
 
         else:
             # Sample with evidence
-- 
2.43.0


From 4504b831bc74f5c38385a9c9d3db67cf1af1c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 34/52] fix: completion of marginalized scopes by ConvPc for
 every memory layout

---
 simple_einet/conv_pc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 4c810f6..d6f85cc 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -729,9 +729,10 @@ class ConvPc(nn.Module):
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
             evidence = evidence.reshape(samples.shape)
-            mask = torch.isnan(evidence)
+            mask = torch.isnan(evidence).flatten(-2)
             if marginalized_scopes is not None:
-                mask.flatten(-2)[..., marginalized_scopes] = True
+                mask[..., marginalized_scopes] = True
+            mask = mask.view(evidence.shape)
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
 
-- 
2.43.0


From 02dfb09530c4ff150128171135e5942a00cda66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 35/52] fix: discrete piecewise linear leaves sample values of
 their domain instead of bin indices

---
 simple_einet/layers/distributions/piecewise_linear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..fac4870 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -319,7 +319,10 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            xs_i_wo_tails = xs_i[1:-1]  # The values of the domain
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = xs_i_wo_tails[
+                                dist.sample(sample_shape)
+                            ]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From 721f3869264c66d990a889a6396a2df4912f6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 36/52] fix: piecewise linear leaves are normalised for
 discrete domains that are not evenly spaced

---
 .../layers/distributions/piecewise_linear.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index fac4870..4d26dcc 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -126,10 +126,9 @@ class PiecewiseLinear(AbstractLeaf):
                                 # If there is no data in this cluster, set the density to uniform
                                 densities = torch.ones(len(mids), device=data.device) / len(mids)
                             else:
-                                # Compute counts
-                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu(), density=True).hist.to(
-                                    data.device
-                                )
+                                # Compute relative frequencies
+                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(data.device)
+                                densities = densities / densities.sum()
 
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
@@ -179,11 +178,15 @@ class PiecewiseLinear(AbstractLeaf):
                         x = torch.tensor(x, device=data.device)  # , requires_grad=True)
                         y = torch.tensor(y, device=data.device)  # , requires_grad=True)
 
-                        # Compute AUC using the trapeziod rule
-                        auc = torch.trapezoid(x=x, y=y)
+                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                            # Normalize the probabilities of the values
+                            y = y / y.sum()
+                        else:
+                            # Compute AUC using the trapeziod rule
+                            auc = torch.trapezoid(x=x, y=y)
 
-                        # Normalize y to sum to 1 using AUC
-                        y = y / auc
+                            # Normalize y to sum to 1 using AUC
+                            y = y / auc
 
                         # Store
                         xs_channels.append(x)
-- 
2.43.0


From a7acf9d53087761d3aff236748ca9ebf0fbcc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 37/52] fix: initialise piecewise linear leaves if a cluster is
 empty

---
 .../layers/distributions/piecewise_linear.py   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 4d26dcc..eb1d4e5 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -3,6 +3,7 @@ import logging
 from collections import defaultdict
 from typing import List, Tuple
 
+import numpy as np
 import torch
 import tqdm
 from fast_pytorch_kmeans import KMeans
@@ -92,7 +93,7 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
@@ -134,10 +135,17 @@ class PiecewiseLinear(AbstractLeaf):
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
-                            # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                domain = self.domains[i_feature]
+                                if np.isfinite(domain.min) and np.isfinite(domain.max):
+                                    bins = torch.tensor([domain.min, domain.max], dtype=torch.float)
+                                densities = torch.ones(len(bins) - 1, device=data.device)
+                            else:
+                                # Construct histogram
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From 33f44026102619882711cd4362993efa22a4886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 38/52] fix: preprocessing for binomial leaves leaves the batch
 unmodified

---
 models_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..528209c 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -120,7 +120,7 @@ class LitModel(pl.LightningModule, ABC):
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
         if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+            data = data * 255.0
 
         return data
 
-- 
2.43.0


From 0f94b5906eedf684a5b7bc809962d08b9bb561dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 39/52] fix: return_leaf_params with the bottom-up structure
 for leaves with several parameters

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 41db3fa..22f940f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -147,7 +147,7 @@ def dist_sample(
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
-- 
2.43.0


From d3efc95bc95e2da11a063f7644c25901813fe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 40/52] fix: models can be copied while their leaf cache is in
 use

---
 simple_einet/einet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 646f2ae..9ead5c9 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -119,6 +119,12 @@ class Einet(nn.Module):
         """Reset the leaf cache."""
         self._leaf_cache = {}
 
+    def __getstate__(self):
+        """State for copying and pickling: the leaf cache is part of the original's computation graph and left out."""
+        state = super().__getstate__()
+        state["_leaf_cache"] = {}
+        return state
+
     def forward(self, x: torch.Tensor, marginalized_scopes: torch.Tensor = None, cache_index: Optional[int] = None) -> torch.Tensor:
         """
         Inference pass for the Einet model.
-- 
2.43.0


From 0fd12ce6a3fbecd0ff74030b5865a9077aa782c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 41/52] fix: a mixture's centroids buffer covers all channels,
 so that saved mixtures can be loaded

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 011323c..ea01af9 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -26,7 +26,7 @@ class Mixture(nn.Module):
         for _ in range(n_components):
             if isinstance(config, EinetConfig):
                 model = Einet(config)
-                self.num_features = config.num_features
+                self.num_features = config.num_features * config.num_channels
             elif isinstance(config, ConvPcConfig):
                 assert data_shape is not None, "data_shape must not be None (required for ConvPc)"
                 self.num_features = data_shape.num_pixels * data_shape.channels
-- 
2.43.0


From 597af2af79bd8dc9692cec228e3c79112c350692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 42/52] fix: continuous piecewise linear leaves sample from the
 linear density within each segment

---
 simple_einet/layers/distributions/piecewise_linear.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index eb1d4e5..cfd1b62 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -347,13 +347,16 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF, which is quadratic within the segment, to get the sample value
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
-                            cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
+                            area = (u - cdf[indices - 1]).clamp(min=0.0)
+                            slope = (y1 - y0) / (x1 - x0)
+                            root = torch.sqrt((y0**2 + 2 * slope * area).clamp(min=0.0))
+                            offset = 2 * area / (y0 + root).clamp(min=1e-12)  # Avoid division by zero
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = torch.minimum(x0 + offset, x1)
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From c8ea934ecf2737e7d43066b141ddf82f1bed56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 43/52] fix: the state dict contains the functions of piecewise
 linear leaves

---
 .../layers/distributions/piecewise_linear.py  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index cfd1b62..a761b9d 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -227,6 +227,31 @@ class PiecewiseLinear(AbstractLeaf):
         self.xs = None
         self.ys = None
 
+    def get_extra_state(self):
+        """The piecewise linear functions (which are not parameters) as a part of the state dict."""
+        if not self.is_initialized:
+            return None
+        domains = [
+            {
+                "values": None if d.values is None else [float(v) for v in d.values],
+                "min": float(d.min),
+                "max": float(d.max),
+                "data_type": d.data_type.value,
+            }
+            for d in self.domains
+        ]
+        return {"xs": self.xs, "ys": self.ys, "mixture_weights": self.mixture_weights, "domains": domains}
+
+    def set_extra_state(self, state):
+        if state is None:
+            self.reset()
+            return
+        self.xs = state["xs"]
+        self.ys = state["ys"]
+        self.mixture_weights = state["mixture_weights"]
+        self.domains = [Domain(d["values"], d["min"], d["max"], DataType(d["data_type"])) for d in state["domains"]]
+        self.is_initialized = True
+
     def _get_base_distribution(self, ctx: SamplingContext = None) -> "PiecewiseLinearDist":
         # Use custom normal instead of PyTorch distribution
         if not self.is_initialized:
-- 
2.43.0


From b672fee5cd21503054135b5aa55b876cca153f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 44/52] fix: ConvPc with a single leaf channel

---
 simple_einet/conv_pc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index d6f85cc..95a1a84 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -633,6 +633,7 @@ class ConvPc(nn.Module):
     def _forward_leaf_data(self, x, marginalized_scopes=None):
         x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
         x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
+        # The view also removes the empty repetition dimension (artifact from Einet implementation)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -640,9 +641,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From 9bc9cf4a1ba2096557a4b67b5f0a6ff0e5a7c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 45/52] fix: number of classes of the digits data set

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..32ecf1e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
-- 
2.43.0


From 3bf7f27ea2d5f349e210d3ac25bb1c3f7a5c63ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 46/52] fix: fmnist-16 has a shape and a number of classes but
 could not be loaded

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 32ecf1e..a6a02f5 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -493,7 +493,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
         dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
 
-    elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
+    elif dataset_name == "fmnist" or dataset_name == "fmnist-32" or dataset_name == "fmnist-16":
         if normalize:
             transform.transforms.append(transforms.Normalize([0.5], [0.5]))
 
-- 
2.43.0


From 3b585f56ad4f6465eaad8c2f8b7ef47a31ecdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:55 +0000
Subject: [PATCH 47/52] fix: sizes of the training and validation parts of svhn
 and lsun did not always add up

---
 simple_einet/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index a6a02f5..3e96317 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -537,7 +537,9 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_train = SVHN(**kwargs, split="train")
 
         N = len(dataset_train.data)
-        lenghts = [round(N * 0.9), round(N * 0.1)]
+        N_train = round(N * 0.9)
+        N_val = N - N_train
+        lenghts = [N_train, N_val]
 
         dataset_train, dataset_val = random_split(dataset_train, lengths=lenghts, generator=split_generator)
         dataset_test = SVHN(**kwargs, split="test")
@@ -560,7 +562,9 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_test = LSUN(**kwargs, classes=["church_outdoor_val"])
 
         N = dataset_train.length
-        lenghts = [round(N * 0.9), round(N * 0.1)]
+        N_train = round(N * 0.9)
+        N_val = N - N_train
+        lenghts = [N_train, N_val]
         dataset_train, dataset_val = random_split(dataset_train, lengths=lenghts, generator=split_generator)
 
     elif dataset_name == "fake":
-- 
2.43.0


From 846ea1b0c6a5e9335ab431ebbbc241f544fbb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 48/52] fix: init_einet_stats gave NaN variances for batches of
 one row and weighted batches unequally

---
 simple_einet/sampling_utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 28878d4..a506ae7 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -306,22 +306,22 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
     Returns: None
     """
-    stats_mean = None
-    stats_var = None
+    count = 0
+    stats_sum = 0.0
+    stats_sum_sq = 0.0
 
-    # Compute mean and std
+    # Compute mean and std over all rows (batches may have different sizes)
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
-        else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
+        data = data.double()
+        count += data.shape[0]
+        stats_sum = stats_sum + data.sum(dim=0)
+        stats_sum_sq = stats_sum_sq + (data**2).sum(dim=0)
 
     # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+    stats_mean = stats_sum / count
+    stats_var = ((stats_sum_sq - count * stats_mean**2) / max(count - 1, 1)).clamp(min=0.0)
+    stats_mean, stats_var = stats_mean.float(), stats_var.float()
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From fc543282d73e750186983fbf8b3bfc0fedd2da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 49/52] fix: init_einet_stats failed for the bottom-up
 structure

---
 simple_einet/sampling_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index a506ae7..dba8f5a 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -336,25 +336,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
         else:
             raise ValueError(f"Invalid einet type: {type(einet)} -- must be Einet or EinetMixture.")
 
+        # The leaf of the bottom-up structure is not wrapped in a factorized leaf
+        leaves = [getattr(net.leaf, "base_leaf", net.leaf) for net in einets]
+
         # Reshape to match leaf parameters
         stats_mean_v = (
             stats_mean.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.means)
+            .view_as(leaves[0].means)
         )
         stats_var_v = (
             stats_var.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.logvar)
+            .view_as(leaves[0].logvar)
         )
 
         # Set leaf parameters
-        for net in einets:
+        for leaf in leaves:
             # Add noise to ensure that values are not completely equal along repetitions and einets
-            net.leaf.base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
+            leaf.means.data = stats_mean_v + 0.1 * torch.normal(
                 torch.zeros_like(stats_mean_v), torch.std(stats_mean_v)
             )
-            net.leaf.base_leaf.logvar.data = torch.log(
+            leaf.logvar.data = torch.log(
                 stats_var_v
                 + 1e-3
                 + torch.clamp(0.1 * torch.normal(torch.zeros_like(stats_var_v), torch.std(stats_var_v)), min=0.0)
-- 
2.43.0


From b409e597eb6536ead6ab47e7dd5a3fa272638410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 50/52] fix: the script's test run failed on batches of one row

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 42598c0..e4f7ac0 100644
--- a/main.py
+++ b/main.py
@@ -120,7 +120,7 @@ def test(model, device, loader, tag):
 
             lls = log_likelihoods(outputs)
             test_loss += -1 * lls.sum()
-            test_losses += lls.squeeze().cpu().tolist()
+            test_losses += lls.reshape(-1).cpu().tolist()
 
             if args.classification:
                 _, predicted = outputs.max(1)
-- 
2.43.0


From b480c2e778ca0de891384392efe393122a6b72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 51/52] fix: product layers could not be sampled

---
 simple_einet/layers/product.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 24d127b..ead4f2f 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -114,10 +114,10 @@ class ProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
-                ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
+                ctx.indices_out = torch.zeros(ctx.num_samples, self.num_features, dtype=int, device=self._device)
                 ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=int, device=self._device)
                 return ctx
             else:
@@ -259,10 +259,10 @@ class CrossProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
-                ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
+                ctx.indices_out = torch.zeros(ctx.num_samples, self.num_features, dtype=int, device=self._device)
                 ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=int, device=self._device)
                 return ctx
             else:
-- 
2.43.0


From f3600d93e626b2295abd644c173d2e93ce4d98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 52/52] fix: CrossProductLayer failed for an odd number of
 features

---
 simple_einet/layers/product.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index ead4f2f..61430bf 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -174,7 +174,7 @@ class CrossProductLayer(AbstractLayer):
         cardinality = 2  # Fixed to binary graphs for now
         self.cardinality = check_valid(cardinality, int, 2, in_features + 1)
         self._out_features = np.ceil(self.num_features / self.cardinality).astype(int)
-        self._pad = 0
+        self._pad = self.num_features % self.cardinality  # An odd number of features needs a marginalized node
 
         # Collect scopes for each product child
         self._scopes = [[] for _ in range(self.cardinality)]
@@ -219,11 +219,8 @@ class CrossProductLayer(AbstractLayer):
         Returns:
             torch.Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
-        # Check if padding to next power of 2 is necessary
-        if self.num_features != x.shape[1]:
-            # Compute necessary padding to the next power of 2
-            self._pad = 2 ** np.ceil(np.log2(x.shape[1])).astype(np.int) - x.shape[1]
-
+        # Check if padding is necessary
+        if self._pad > 0:
             # Pad marginalized node
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad], mode="constant", value=0.0)
 
-- 
2.43.0

