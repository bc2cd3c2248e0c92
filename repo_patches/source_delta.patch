From 14cad1f66e488bc2cd8da6fc68daf1413abd24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 01/25] fix: FoldNormal samples are folded onto the
 non-negative half line

The sampler returned plain normal samples, including negative values to which
its own density assigns probability zero.
---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 6bfef6ce03ee95577b557e87ef9f41feb0e5e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 02/25] fix: no gradient through samples of Gamma, Beta,
 InverseGamma, Dirichlet

These distributions declare is_reparameterized=False, but tf.random_gamma has
implicit gradients that leaked through the samples and biased the score
function estimators.
---
 zhusuan/distributions/multivariate.py |  4 +++-
 zhusuan/distributions/univariate.py   | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..3c7187a 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,9 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        # not reparameterized: block the implicit gradients of random_gamma
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..9333dd3 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,10 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        # not reparameterized: block the implicit gradients of random_gamma
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +831,8 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        # not reparameterized: block the implicit gradients of random_gamma
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1142,7 +1145,8 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        # not reparameterized: block the implicit gradients of random_gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From 5bc4e6c30aca7daff9f37864c39b6aec2e316dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 03/25] fix: reject latent nodes without a variational
 posterior

The validation iterated over node names instead of nodes, so it never fired.
---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 17fd9a158e06e3a559c3c1ee28f0ad8b4ded6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 04/25] fix: deterministic nodes must not overwrite an existing
 node

The name is documented to be unique; a clash silently dropped the existing
stochastic node from the net and from its log joint.
---
 zhusuan/framework/bn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..6c6ef42 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -380,6 +380,10 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From 4a09ae87b20f7dd48dd8cc8de62eca72db04501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 05/25] fix: MetaBayesianNet works with its default args and
 kwargs

observe() raised TypeError when either was left at its default None.
---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..cf709da 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = copy.copy(args) if args is not None else ()
+        self._kwargs = copy.copy(kwargs) if kwargs is not None else {}
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 40f0a7faec7a7d86a36db9854e03deafaeeffa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 06/25] fix: log_sum_exp and log_mean_exp of infinite inputs

Reducing over entries that are all -inf (weights that are all zero), or over
a +inf entry, gave NaN instead of -inf or +inf.
---
 zhusuan/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..3ec9c20 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -167,6 +167,7 @@ def log_sum_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_sum(tf.exp(x - x_max), axis=axis,
                                keepdims=True)) + x_max
     if not keepdims:
@@ -189,6 +190,7 @@ def log_mean_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_mean(tf.exp(x - x_max), axis=axis,
                                 keepdims=True)) + x_max
     if not keepdims:
-- 
2.43.0


From b7cf05cbe71bdf071d9491634f1930aaed5afd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 07/25] fix: effective sample size sums autocorrelations from
 lag 1

Including lag 0 (always 1) reported at most a third of the samples, even for
independent draws.
---
 zhusuan/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/diagnostics.py b/zhusuan/diagnostics.py
index 5e51e69..d98301c 100644
--- a/zhusuan/diagnostics.py
+++ b/zhusuan/diagnostics.py
@@ -30,7 +30,7 @@ def effective_sample_size_1d(samples):
         return np.mean((samples[:n - lag] - mu_hat) * (samples[lag:] - mu_hat))
 
     sum_rho = 0
-    for t in range(0, n):
+    for t in range(1, n):
         rho = 1 - (var - auto_covariance(t)) / var_plus
         if rho < 0:
             break
-- 
2.43.0


From 0b0e0460c2f162ef8b8d045ac39689d3f599ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 08/25] fix: SGMCMC counts an iteration after its updates have
 read the counter

The increment raced with the momentum resampling test, so that momentum was
resampled twice in a row or not at all depending on the schedule.
---
 zhusuan/sgmcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..949c5a6 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,9 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        # count the iteration after the updates, which read the counter
+        with tf.control_dependencies(update_ops):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From 1ff9e3e9ace60fa89b433b26fd4cdf913b886cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 09/25] fix: SGLD and PSGLD update all latent variables
 simultaneously

With several latent variables, one could be overwritten before the gradients
of the others, which read it, had been computed.
---
 zhusuan/sgmcmc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index 949c5a6..9eaac5a 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -190,15 +190,21 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        return self._assign_all(
+            qs, [self._update_single(q, grad)
+                 for q, grad in zip(qs, grad_func(qs))])
+
+    @staticmethod
+    def _assign_all(qs, new_qs):
+        # The gradients read all the latent variables, none of which may
+        # change before all new values are known.
+        with tf.control_dependencies(new_qs):
+            update_qs = [q.assign(new_q) for q, new_q in zip(qs, new_qs)]
+        return update_qs, [{"q": new_q} for new_q in new_qs]
 
     def _update_single(self, q, grad):
-        new_q = q + 0.5 * self.lr * grad + tf.random_normal(
+        return q + 0.5 * self.lr * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
 
 
 class PSGLD(SGLD):
@@ -245,17 +251,15 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        return self._assign_all(
+            qs, [self._update_single(q, grad, aux)
+                 for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
             self.preconditioner_hparams, q, grad, aux)
-        new_q = q + 0.5 * self.lr * g * grad + tf.random_normal(
+        return q + 0.5 * self.lr * g * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr * g))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
 
 
 class SGHMC(SGMCMC):
-- 
2.43.0


From 4a0ecc802eff739185a11376cde0244972256fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 10/25] fix: reinforce subtracts the moving mean of the
 previous signals

Updating the moving mean raced with reading it. When the update came first the
baseline included the current signal, which biases the gradient.
---
 zhusuan/variational/exclusive_kl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..1465546 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,12 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
             l_signal = l_signal - moving_mean
+            # the moving mean must not include the signal it is subtracted
+            # from
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 96b2e7f56343ede92560c67232cf3f776717b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 11/25] fix: HMC uses unit mass until the mass has been adapted

When adapt_mass was fed False from the beginning, the mass became infinite at
mass_collect_iters and the chain never moved again.
---
 zhusuan/hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..c8b2efb 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -119,7 +119,8 @@ class ExponentialWeightedMovingVariance:
             # mean, var: (1,...,1 data_dims)
             self.mean = [tf.Variable(tf.zeros(s), name="mean",
                                      trainable=False) for s in shape]
-            self.var = [tf.Variable(tf.zeros(s), name="var",
+            # The first update replaces the initial unit variance.
+            self.var = [tf.Variable(tf.ones(s), name="var",
                                     trainable=False) for s in shape]
             self.decay = decay
             self.one = tf.constant(1.0, dtype=tf.float32)
-- 
2.43.0


From 93fbcf0733b98ba92f89f3a7ee851415c6b4be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 12/25] fix: HMC keeps its step size while step size adaptation
 is off

With adapt_step_size fed False from the beginning the configured step size was
replaced by 1.0, and iteration mass_collect_iters still tuned the step size to
the current state.
---
 zhusuan/hmc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index c8b2efb..b632c9c 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -82,7 +82,8 @@ class StepsizeTuner:
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(tf.constant(initial_stepsize, dtype=tf.float32)),
+                name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
@@ -464,8 +465,10 @@ class HMC:
         if self.adapt_step_size is None:
             new_step_size = self.step_size
         else:
-            if_initialize_step_size = tf.logical_or(tf.equal(new_t, 1),
-                tf.equal(tf.cast(new_t, tf.int32), self.mass_collect_iters))
+            if_initialize_step_size = tf.logical_and(
+                self.step_size_tuner.adapt_step_size,
+                tf.logical_or(tf.equal(new_t, 1), tf.equal(
+                    tf.cast(new_t, tf.int32), self.mass_collect_iters)))
             def iss():
                 return self._init_step_size(current_q, current_p, mass,
                                             get_gradient, get_log_posterior)
-- 
2.43.0


From efa94de7de945f36cecdec633d695d001ba4ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 13/25] fix: context stacks are not shared between threads

observe() in one thread could pick up the observations of, or pop the context
of, a model being observed in another thread.
---
 zhusuan/framework/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zhusuan/framework/utils.py b/zhusuan/framework/utils.py
index 1d9b3ef..26ca999 100644
--- a/zhusuan/framework/utils.py
+++ b/zhusuan/framework/utils.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import division
 from collections import deque, OrderedDict
+import threading
 import warnings
 
 import tensorflow as tf
@@ -21,6 +22,7 @@ class Context(object):
     """
     Context stack.
     """
+    _contexts = threading.local()
 
     def __init__(self):
         super(Context, self).__init__()
@@ -34,9 +36,8 @@ class Context(object):
 
     @classmethod
     def get_contexts(cls):
-        if not hasattr(cls, "_contexts"):
-            cls._contexts = []
-        return cls._contexts
+        # one stack per class in each thread
+        return Context._contexts.__dict__.setdefault(cls, [])
 
     @classmethod
     def get_context(cls):
-- 
2.43.0


From 3b8a1d3165bde701ef9df2e652ba631e3c80940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 14/25] fix: legacy Empirical node forwards is_continuous

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From f26df5a11a4532fdf3df794ed127ecd8da21b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 15/25] fix: old-style nodes keep names unique and the log
 joint up to date

---
 zhusuan/framework/bn.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 6c6ef42..d473af3 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -66,6 +66,7 @@ class StochasticTensor(TensorArithmeticMixin):
     """
 
     def __init__(self, bn, name, dist, observation=None, **kwargs):
+        add_to_bn = False
         if bn is None:
             warnings.warn(
                 "The old-style StochasticTensor wrappers will be removed "
@@ -77,7 +78,11 @@ class StochasticTensor(TensorArithmeticMixin):
             except RuntimeError:
                 pass
             else:
-                bn.nodes[name] = self
+                if name in bn.nodes:
+                    raise ValueError(
+                        "There exists a node with name '{}' in the {}. Names "
+                        "should be unique.".format(name, BayesianNet.__name__))
+                add_to_bn = True
 
         self._bn = bn
         self._name = name
@@ -91,6 +96,11 @@ class StochasticTensor(TensorArithmeticMixin):
                 self._bn._observed[name])
         else:
             self._observation = None
+        if add_to_bn:
+            # invalidate the log joint cache
+            if hasattr(bn, "_log_joint_cache"):
+                del bn._log_joint_cache
+            bn.nodes[name] = self
         super(StochasticTensor, self).__init__()
 
     def _check_observation(self, observation):
-- 
2.43.0


From d35f389a1296f3cbd81bb2267308c9c32f647965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 16/25] fix: outputs() and query() of deterministic nodes

---
 zhusuan/framework/bn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index d473af3..0c9d79c 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -1223,9 +1223,10 @@ class BayesianNet(_BayesianNet, Context):
             "be removed in 0.4.1, use `get()` instead.", FutureWarning)
         name_or_names = self._check_names_exist(name_or_names)
         if isinstance(name_or_names, tuple):
-            return [self._nodes[name].tensor for name in name_or_names]
+            return [tf.convert_to_tensor(self._nodes[name])
+                    for name in name_or_names]
         else:
-            return self._nodes[name_or_names].tensor
+            return tf.convert_to_tensor(self._nodes[name_or_names])
 
     def local_log_prob(self, name_or_names):
         """
-- 
2.43.0


From 9cd94628dea42fd07a70b9a7db830478c5dbc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:03 +0000
Subject: [PATCH 17/25] fix: graphs that differentiate through Poisson samples

A float valued Poisson sample raised LookupError as soon as a gradient was
taken through a graph containing it, e.g. by reinforce(), instead of letting
no gradient through like every other sample that is not reparameterized.
---
 zhusuan/distributions/univariate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 9333dd3..fb2df93 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -917,8 +917,10 @@ class Poisson(Distribution):
         return self.rate.get_shape()
 
     def _sample(self, n_samples):
-        samples = tf.random_poisson(self.rate, [n_samples],
-                                    dtype=self.param_dtype)
+        # not reparameterized, and random_poisson has no gradient registered
+        samples = tf.stop_gradient(
+            tf.random_poisson(self.rate, [n_samples],
+                              dtype=self.param_dtype))
         if self.param_dtype != self.dtype:
             samples = tf.cast(samples, self.dtype)
         return samples
-- 
2.43.0


From fecf24795e30187ec5b095dd0b290168da6500fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:04 +0000
Subject: [PATCH 18/25] fix: operators with a NumPy array on the left of a
 tensor-like object

---
 zhusuan/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index 3ec9c20..3300a46 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,11 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # Let the reflected operators below handle NumPy arrays on the left side,
+    # as for Tensors. Otherwise NumPy applies the operator to each of its
+    # elements and returns an array of Tensors.
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
-- 
2.43.0


From 0a1bf0bde05227186b0056050ca6bab97645dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:16 +0000
Subject: [PATCH 19/25] fix: reflected operators of tensor-like objects convert
 the other operand to their dtype

---
 zhusuan/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index 3300a46..575165b 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -39,19 +39,19 @@ class TensorArithmeticMixin(object):
         return tf.add(self, other)
 
     def __radd__(self, other):
-        return tf.add(other, self)
+        return other + tf.convert_to_tensor(self)
 
     def __sub__(self, other):
         return tf.subtract(self, other)
 
     def __rsub__(self, other):
-        return tf.subtract(other, self)
+        return other - tf.convert_to_tensor(self)
 
     def __mul__(self, other):
         return tf.multiply(self, other)
 
     def __rmul__(self, other):
-        return tf.multiply(other, self)
+        return other * tf.convert_to_tensor(self)
 
     def __div__(self, other):
         return tf.divide(self, other)
@@ -63,25 +63,25 @@ class TensorArithmeticMixin(object):
         return tf.truediv(self, other)
 
     def __rtruediv__(self, other):
-        return tf.truediv(other, self)
+        return other / tf.convert_to_tensor(self)
 
     def __floordiv__(self, other):
         return tf.floordiv(self, other)
 
     def __rfloordiv__(self, other):
-        return tf.floordiv(other, self)
+        return other // tf.convert_to_tensor(self)
 
     def __mod__(self, other):
         return tf.mod(self, other)
 
     def __rmod__(self, other):
-        return tf.mod(other, self)
+        return other % tf.convert_to_tensor(self)
 
     def __pow__(self, other):
         return tf.pow(self, other)
 
     def __rpow__(self, other):
-        return tf.pow(other, self)
+        return other ** tf.convert_to_tensor(self)
 
     # logical operations
     def __invert__(self):
-- 
2.43.0


From db8b221e8b580e843a4562a2664bbaa0cd21f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:46 +0000
Subject: [PATCH 20/25] fix: reinforce() with variance reduction for other
 dtypes than float32

---
 zhusuan/variational/exclusive_kl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index 1465546..4d9fe00 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -208,7 +208,7 @@ class EvidenceLowerBoundObjective(VariationalObjective):
             bc = tf.reduce_mean(l_signal)
             # TODO: fix get variable failure for repeated calls.
             moving_mean = tf.get_variable(
-                'moving_mean', shape=[],
+                'moving_mean', shape=[], dtype=bc.dtype,
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-- 
2.43.0


From 547800adee5fb3fa0de99ca690b08914b5941ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:07 +0000
Subject: [PATCH 21/25] fix: HMC does not overwrite the step size while the
 iteration still uses it

With step size adaptation off, the assignment of the averaged step size did not
wait for the leapfrog steps, which could then use both the old and the new
value within one trajectory.
---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index b632c9c..7fec82c 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -378,7 +378,9 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # The leapfrog steps of this iteration must have read the step size.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From ae650c8fc63f6d7ad3cf9d0a1abd164ee37e506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:08 +0000
Subject: [PATCH 22/25] fix: variational objectives reject an incomplete
 posterior on every access

VariationalObjective.bn stored the observed net before validating it, so
after one ValueError the same objective silently sampled the missing
latent node from the prior on the next access.
---
 zhusuan/variational/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 659c013..d440e3f 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -130,9 +130,10 @@ class VariationalObjective(TensorArithmeticMixin):
         """
         if self._meta_bn:
             if not hasattr(self, "_bn"):
-                self._bn = self._meta_bn.observe(
+                bn = self._meta_bn.observe(
                     **merge_dicts(self._v_inputs, self._observed))
-                self._validate_variational_inputs(self._bn)
+                self._validate_variational_inputs(bn)
+                self._bn = bn
             return self._bn
         else:
             return None
-- 
2.43.0


From 9746bb11e351400374c6683532413a9f7aeaee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:46 +0000
Subject: [PATCH 23/25] fix: keep the state of SGMCMC samplers out of the
 trainable variables

The preconditioner of PSGLD, the momenta of SGHMC and the momenta and
frictions of SGNHT were created as trainable variables, so a sampler added
its own state to tf.trainable_variables() (weight decay, default var_list of
optimizers, parameter counts). HMC's state is not trainable either.
---
 zhusuan/sgmcmc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index 9eaac5a..2c54939 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -230,7 +230,8 @@ class PSGLD(SGLD):
 
         @staticmethod
         def _define_variables(qs):
-            return [tf.Variable(tf.zeros_like(q)) for q in qs]
+            return [tf.Variable(tf.zeros_like(q), trainable=False)
+                    for q in qs]
 
         @staticmethod
         def _get_preconditioner(hps, q, grad, aux):
@@ -325,7 +326,8 @@ class SGHMC(SGMCMC):
     def _define_variables(self, qs):
         # Define the augmented momentum variables.
         self.vs = [
-            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)))
+            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)),
+                        trainable=False)
             for q in qs]
 
     def _update(self, qs, grad_func):
@@ -453,14 +455,16 @@ class SGNHT(SGMCMC):
     def _define_variables(self, qs):
         # Define the augmented momentum variables.
         self.vs = [
-            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)))
+            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)),
+                        trainable=False)
             for q in qs]
         # Define the augmented friction variables.
         if self.use_vector_alpha:
-            self.alphas = [tf.Variable(self.a*tf.ones(tf.shape(q)))
+            self.alphas = [tf.Variable(self.a*tf.ones(tf.shape(q)),
+                                       trainable=False)
                            for q in qs]
         else:
-            self.alphas = [tf.Variable(self.a) for q in qs]
+            self.alphas = [tf.Variable(self.a, trainable=False) for q in qs]
 
     def _update(self, qs, grad_func):
         def resample_momentum(v):
-- 
2.43.0


From 4e3672083cc3eab03dfc6a6c894ea350a5f8f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 24/25] fix: Beta and Dirichlet samples with small
 concentration parameters

The gamma samples they are made of underflow for small concentrations, so
that many samples came out as exactly 1/2 (1/K). Combine them in log space.
---
 zhusuan/distributions/multivariate.py |  7 +++----
 zhusuan/distributions/univariate.py   |  7 ++++---
 zhusuan/distributions/utils.py        | 17 +++++++++++++++++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index 3c7187a..09d7253 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -18,6 +18,7 @@ from zhusuan.distributions.utils import (
     assert_positive_int32_scalar,
     get_shape_at,
     open_interval_standard_uniform,
+    random_log_gamma,
     log_combination
 )
 
@@ -658,11 +659,9 @@ class Dirichlet(Distribution):
         return tf.TensorShape(None)
 
     def _sample(self, n_samples):
-        samples = tf.random_gamma([n_samples], self.alpha,
-                                  beta=1, dtype=self.dtype)
+        log_samples = random_log_gamma(n_samples, self.alpha, self.dtype)
         # not reparameterized: block the implicit gradients of random_gamma
-        return tf.stop_gradient(
-            samples / tf.reduce_sum(samples, -1, keepdims=True))
+        return tf.stop_gradient(tf.nn.softmax(log_samples))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index fb2df93..f2391d8 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -18,6 +18,7 @@ from zhusuan.distributions.utils import (
     assert_rank_at_least_one,
     get_shape_at,
     open_interval_standard_uniform,
+    random_log_gamma,
     ensure_logstd_std_order_change,
 )
 
@@ -829,10 +830,10 @@ class Beta(Distribution):
     def _sample(self, n_samples):
         alpha, beta = maybe_explicit_broadcast(
             self.alpha, self.beta, 'alpha', 'beta')
-        x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
-        y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
+        log_x = random_log_gamma(n_samples, alpha, self.dtype)
+        log_y = random_log_gamma(n_samples, beta, self.dtype)
         # not reparameterized: block the implicit gradients of random_gamma
-        return tf.stop_gradient(x / (x + y))
+        return tf.stop_gradient(tf.sigmoid(log_x - log_y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
diff --git a/zhusuan/distributions/utils.py b/zhusuan/distributions/utils.py
index f7e93ab..1264aef 100644
--- a/zhusuan/distributions/utils.py
+++ b/zhusuan/distributions/utils.py
@@ -324,6 +324,23 @@ def open_interval_standard_uniform(shape, dtype):
         dtype=dtype)
 
 
+def random_log_gamma(n_samples, alpha, dtype):
+    """
+    Return logarithms of samples from Gamma(alpha, 1). Unlike the samples
+    themselves, they do not underflow when `alpha` is small.
+
+    :param n_samples: The number of samples.
+    :param alpha: A Tensor. The shape parameter.
+    :param dtype: The dtype of generated samples.
+
+    :return: A Tensor of shape ``[n_samples] + alpha.shape``.
+    """
+    # x * u^(1 / alpha) ~ Gamma(alpha, 1), if x ~ Gamma(alpha + 1, 1)
+    x = tf.random_gamma([n_samples], alpha + 1, beta=1, dtype=dtype)
+    u = open_interval_standard_uniform(tf.shape(x), dtype)
+    return tf.log(x) + tf.log(u) / alpha
+
+
 def ensure_logstd_std_order_change(name, sentinel):
     """Make sure the order of logstd/std has changed to std/logstd."""
     if sentinel is not None:
-- 
2.43.0


From 3850c1ef18a746007443fe4dc41c6ebcf0c76653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 25/25] fix: HMC accepts a Tensor as the initial step size with
 adaptation

tf.constant cannot take the documented 0-D Tensor.
---
 zhusuan/hmc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 7fec82c..e32c8fa 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -76,13 +76,15 @@ class StepsizeTuner:
                                               name="kappa")
             self.delta = tf.convert_to_tensor(delta, dtype=tf.float32,
                                               name="delta")
-            self.mu = tf.constant(10 * initial_stepsize, dtype=tf.float32,
-                                  name="mu")
+            self.mu = tf.convert_to_tensor(
+                10 * initial_stepsize, dtype=tf.float32,
+                name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             self.log_epsilon_bar = tf.Variable(
-                tf.log(tf.constant(initial_stepsize, dtype=tf.float32)),
+                tf.log(tf.convert_to_tensor(
+                    initial_stepsize, dtype=tf.float32)),
                 name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
-- 
2.43.0

