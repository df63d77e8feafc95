From d87bb79a7b76089712818aac27b9448523180393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 01/19] fix: keep the multiroot setting of DependencyCRF per
 distribution

The flag was stored on the shared DepTree class, so creating a second
DependencyCRF changed the answers of the first one.
---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..cbaefb9 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -393,7 +393,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super()._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From 27ebca671f95c8c02da705978524711b56e670b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 02/19] fix: allow sampling inside torch.no_grad()

sample() relies on backpropagation and raised a RuntimeError when gradients
were disabled, unlike kmax, topk and gumbel_crf.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index cbaefb9..cdc7f42 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From 58d1830156f6344f9365b1220c1c676b711bcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 03/19] fix: score non-contiguous potentials

log_prob raised a RuntimeError when the potentials were a transposed view.
---
 torch_struct/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From 498016f857856bc4fb1cfd922b78fc64cc184809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 04/19] fix: support cross_entropy and kl for SemiMarkovCRF

Both pass a pair of potentials. The semi-Markov scan called requires_grad_ on
the pair and ran the length mask through the pairwise semiring conversion.
---
 torch_struct/semimarkov.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..08cc603 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -24,7 +24,6 @@ class SemiMarkov(_Struct):
         # Setup
         semiring = self.semiring
         ssize = semiring.size()
-        log_potentials.requires_grad_(True)
         log_potentials, batch, N, K, C, lengths = self._check_potentials(
             log_potentials, lengths
         )
@@ -66,7 +65,7 @@ class SemiMarkov(_Struct):
         mask_length = mask_length.to(log_potentials.device)
         for k in range(1, K - 1):
             mask_length_k = mask_length < (lengths - 1 - (k - 1)).view(batch, 1, 1)
-            mask_length_k = semiring.convert(mask_length_k)
+            mask_length_k = mask_length_k.unsqueeze(0)
             mask[:, :, :, k - 1, k].diagonal(0, -2, -1).masked_fill_(mask_length_k, True)
         init = semiring.fill(init, mask, semiring.one)
 
-- 
2.43.0


From 0fe86b4154b27d4763489688750be5c1b10c5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 05/19] fix: support cross_entropy and kl for DependencyCRF

Both pass a pair of potentials, which the dependency parser did not accept.
---
 torch_struct/deptree.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 8747d7e..34fd3fa 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -48,12 +48,18 @@ class DepTree(_Struct):
 
     def logpartition(self, arc_scores_in, lengths=None, force_grad=False):
         multiroot = getattr(self, "multiroot", True)
-        if arc_scores_in.dim() not in (3, 4):
+        # Cross-entropy and KL pass a pair of potentials.
+        pair = isinstance(arc_scores_in, list)
+        dim = (arc_scores_in[0] if pair else arc_scores_in).dim()
+        if dim not in (3, 4):
             raise ValueError("potentials must have dim of 3 (unlabeled) or 4 (labeled)")
 
-        labeled = arc_scores_in.dim() == 4
+        labeled = dim == 4
         semiring = self.semiring
-        arc_scores_in = convert(arc_scores_in)
+        if pair:
+            arc_scores_in = [convert(scores) for scores in arc_scores_in]
+        else:
+            arc_scores_in = convert(arc_scores_in)
         arc_scores_in, batch, N, lengths = self._check_potentials(
             arc_scores_in, lengths
         )
@@ -127,10 +133,10 @@ class DepTree(_Struct):
         semiring = self.semiring
         batch, N, N2, *_ = self._get_dimension(arc_scores)
         assert N == N2, "Non-square potentials"
+        arc_scores = semiring.convert(arc_scores)
         if lengths is None:
             lengths = torch.LongTensor([N - 1] * batch).to(arc_scores.device)
         assert max(lengths) <= N, "Length longer than N"
-        arc_scores = semiring.convert(arc_scores)
 
         # Set the extra elements of the log-potentials to zero.
         keep = torch.ones_like(arc_scores).bool()
-- 
2.43.0


From c4863e1e2ab7d44280660bdfcb3668b6009ee0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 06/19] fix: gradients of sharded checkpoints without broadcast
 dimensions

Summing over an empty list of dimensions reduces the whole tensor, so the
backward pass of CheckpointShardSemiring failed when nothing was broadcast.
---
 torch_struct/semirings/checkpoint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..8c14897 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -185,8 +185,12 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
-    return f1, f2
+    # An empty list of dimensions would sum over all of them.
+    if a_ones:
+        a_grad = a_grad.sum(a_ones, keepdim=True)
+    if b_ones:
+        b_grad = b_grad.sum(b_ones, keepdim=True)
+    return a_grad, b_grad
 
 
 # def unaccumulate_(a, b, grad_output, fn, step=10000):
-- 
2.43.0


From b8a9a7d596f2105381c4d43f6c5430800f177c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 07/19] fix: draw independent Gumbel noise for every decision

One noise vector was shared by all batch elements and positions of a chart, so
samples of different batch elements were identical copies of each other and
decisions within a structure were correlated.
---
 torch_struct/semirings/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/sample.py b/torch_struct/semirings/sample.py
index 09ec189..2e258d5 100644
--- a/torch_struct/semirings/sample.py
+++ b/torch_struct/semirings/sample.py
@@ -69,7 +69,7 @@ def GumbelMaxSemiring(temp):
                 def sample(ls):
                     pre_shape = ls.shape
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = torch.nn.functional.one_hot(update.max(-1)[1], pre_shape[-1])
                     return out
@@ -127,7 +127,7 @@ def GumbelCRFSemiring(temp):
 
                 def sample(ls):
                     update = (
-                        ls + torch.distributions.Gumbel(0, 1).sample((ls.shape[-1],))
+                        ls + torch.distributions.Gumbel(0, 1).sample(ls.shape)
                     ) / temp
                     out = ST.apply(update, ls.shape[-1])
                     return out
-- 
2.43.0


From 8783f5286c5cc90a0a4e3be31aea008d467ca79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:31 +0000
Subject: [PATCH 08/19] fix: project onto the simplex along dimensions other
 than the last

The rank used in the threshold was always laid out along the last dimension.
---
 torch_struct/semirings/sparse_max.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..f3c6305 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -54,6 +54,9 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    shape = [1] * v.dim()
+    shape[dim] = -1
+    ind = ind.view(shape)
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From 2438754a84092af6c34f3d8e54dcc76a4facc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:02 +0000
Subject: [PATCH 09/19] fix: accept non-contiguous potentials in SentCFG

---
 torch_struct/cky.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 60b4cc1..c679560 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -34,7 +34,7 @@ class CKY(_Struct):
         # Split into NT/T groups
         NTs = slice(0, NT)
         Ts = slice(NT, S)
-        rules = rules.view(ssize, batch, 1, NT, S, S)
+        rules = rules.reshape(ssize, batch, 1, NT, S, S)
 
         def arr(a, b):
             return rules[..., a, b].contiguous().view(*v + (NT, -1)).transpose(-2, -1)
@@ -52,21 +52,21 @@ class CKY(_Struct):
 
             Y = beta[A][: N - w, :w, :]
             Z = beta[B][w:, N - w :, :]
-            X1 = matmul(matmul(Y.transpose(-2, -1), Z).view(*v2), X_Y_Z)
+            X1 = matmul(matmul(Y.transpose(-2, -1), Z).reshape(*v2), X_Y_Z)
             all_span.append(X1)
 
             Y_term = term_use[..., : N - w, :, None]
             Z_term = term_use[..., w:, None, :]
 
             Y = Y[..., -1, :].unsqueeze(-1)
-            X2 = matmul(times(Y, Z_term).view(*v2), X_Y_Z1)
+            X2 = matmul(times(Y, Z_term).reshape(*v2), X_Y_Z1)
 
             Z = Z[..., 0, :].unsqueeze(-2)
-            X3 = matmul(times(Y_term, Z).view(*v2), X_Y1_Z)
+            X3 = matmul(times(Y_term, Z).reshape(*v2), X_Y1_Z)
             all_span += [X2, X3]
 
             if w == 1:
-                X4 = matmul(times(Y_term, Z_term).view(*v2), X_Y1_Z1)
+                X4 = matmul(times(Y_term, Z_term).reshape(*v2), X_Y1_Z1)
                 all_span.append(X4)
 
             span[w] = semiring.sum(torch.stack(all_span, dim=-1))
-- 
2.43.0


From 3a0675e41013e134e26b023b2380a31ee7f1d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:29 +0000
Subject: [PATCH 10/19] fix: sharded checkpoint backward with a non-contiguous
 upstream gradient

---
 torch_struct/semirings/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 8c14897..5a3bec5 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -171,7 +171,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
+    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
     for p in range(0, grad_output.shape[0], step):
         with torch.enable_grad():
             a_in = a2[p : p + step].clone().requires_grad_(True)
-- 
2.43.0


From 0da9fd616aeb18818fcc108bd45f5050dc498717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:04 +0000
Subject: [PATCH 11/19] fix: value of the sparsemax sum

The forward value subtracted the Euclidean norm of the projection, the
regulariser whose gradient the backward pass computes is half its square.
---
 torch_struct/semirings/sparse_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index f3c6305..4c7acce 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -23,7 +23,7 @@ class _SimplexProject(torch.autograd.Function):
     def forward(ctx, input, dim, z=1):
         w_star = project_simplex(input, dim)
         ctx.save_for_backward(input, w_star.clone(), torch.tensor(dim))
-        x = input.mul(w_star).sum(dim) - w_star.norm(p=2, dim=dim)
+        x = input.mul(w_star).sum(dim) - 0.5 * w_star.pow(2).sum(dim)
         return x
 
     @staticmethod
-- 
2.43.0


From f1fbc88ff2ef2002d77810d9b712ede31b1c84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:37 +0000
Subject: [PATCH 12/19] fix: second-order gradients of the sparsemax sum

The projection was differentiated with respect to a detached copy, so
gradients of sparsemax marginals never reached the potentials.
---
 torch_struct/semirings/sparse_max.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index 4c7acce..386672b 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,24 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
 
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
-        return w_star
+        return w_star.clone()
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From dd43b85b99109f7bac9993ebca691c0146762adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:03 +0000
Subject: [PATCH 13/19] fix: sparsemax projection of values with a large common
 offset

Sums of the unshifted values lost the constant one to rounding. The
support was then empty and the gather raised an index error.
---
 torch_struct/semirings/sparse_max.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index 386672b..839ea8a 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -50,6 +50,8 @@ class _SparseMaxGrad(torch.autograd.Function):
 
 
 def project_simplex(v, dim, z=1):
+    # The projection ignores a common shift; sums of small numbers keep precision.
+    v = v - v.max(dim=dim, keepdim=True)[0]
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
-- 
2.43.0


From 8ab962c8d9e081f174ba59d157e0d2c7b86f2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:27 +0000
Subject: [PATCH 14/19] fix: printing and validating distributions without
 lengths

repr() and validate_args=True handed the missing lengths, and the tuple of
grammar potentials, to code of torch.distributions that needs tensors.
---
 torch_struct/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index cdc7f42..0402c20 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -48,6 +48,11 @@ class StructDistribution(Distribution):
         self.log_potentials = log_potentials
         self.lengths = lengths
         self.args = args
+        if lengths is None:
+            # Absent lengths can be neither validated nor printed.
+            self.arg_constraints = {
+                k: v for k, v in self.arg_constraints.items() if k != "lengths"
+            }
         super().__init__(batch_shape=batch_shape, event_shape=event_shape, validate_args=validate_args)
 
     def _new(self, *args, **kwargs):
@@ -457,6 +462,10 @@ class SentCFG(StructDistribution):
         event_shape = log_potentials[0].shape[1:]
         self.log_potentials = log_potentials
         self.lengths = lengths
+        # Torch can only validate and print parameters that are tensors.
+        self.arg_constraints = {}
+        if lengths is not None:
+            self.arg_constraints["lengths"] = constraints.nonnegative_integer
         super(StructDistribution, self).__init__(
             batch_shape=batch_shape, event_shape=event_shape, validate_args=validate_args
         )
-- 
2.43.0


From 7e22576b901dbab57fbea557f73af353f26b912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:27 +0000
Subject: [PATCH 15/19] fix: printing an autoregressive distribution

repr() raised NotImplementedError because the class named no argument
constraints.
---
 torch_struct/autoregressive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..034e2fa 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -46,6 +46,8 @@ class Autoregressive(Distribution):
         n_length (int): max length of sequence
     """
 
+    arg_constraints = {}
+
     def __init__(
         self,
         model,
-- 
2.43.0


From c41a4a3584bc733eb4ff475352d4e82834fa2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:30 +0000
Subject: [PATCH 16/19] fix: checkpointed products differentiate each operand
 on its own

The backward pass differentiated the recomputed product with respect to the
original operands. If one operand was computed from the other (or both were
the same tensor) the shared part was counted twice, and it raised an error if
only one operand required gradients.
---
 torch_struct/semirings/checkpoint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 5a3bec5..6c3b6f5 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -30,7 +30,8 @@ def CheckpointSemiring(cls, min_size=0):
 
         @staticmethod
         def backward(ctx, grad_output):
-            a, b = ctx.saved_tensors
+            # Each operand on its own: one may be computed from the other.
+            a, b = (x.detach().requires_grad_(True) for x in ctx.saved_tensors)
             with torch.enable_grad():
                 q = cls.matmul(a, b)
                 return torch.autograd.grad(q, (a, b), grad_output)
@@ -159,8 +160,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
-- 
2.43.0


From f07bba1ed9c4e030f578351ea199862c8503465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:34:07 +0000
Subject: [PATCH 17/19] fix: autoregressive searches inside torch.no_grad()

---
 torch_struct/autoregressive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index 034e2fa..2d27c6a 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -119,6 +119,7 @@ class Autoregressive(Distribution):
         scores = log_probs[:, :-1].gather(2, value[:, 1:].unsqueeze(-1)).sum(-1).sum(-1)
         return wrap(scores, sample)
 
+    @torch.enable_grad()
     def _beam_search(self, semiring, gumbel=False):
         beam = semiring.fill(
             torch.zeros((semiring.size(),) + self.batch_shape, device=self.device),
-- 
2.43.0


From 3b8727cd485dc819251988db9ff98b99dbd9bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:42 +0000
Subject: [PATCH 18/19] fix: reject malformed potentials and lengths in the
 non-projective model

---
 torch_struct/deptree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 34fd3fa..d05e874 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -196,11 +196,13 @@ class DepTree(_Struct):
 
 
 def deptree_part(arc_scores, multi_root, lengths=None, eps=1e-5):
+    batch, N, N2 = arc_scores.shape
+    assert N == N2, "Non-square potentials"
     if lengths is not None:
-        batch, N, N = arc_scores.shape
         x = torch.arange(N, device=arc_scores.device).expand(batch, N)
         if not torch.is_tensor(lengths):
             lengths = torch.tensor(lengths, device=arc_scores.device)
+        assert max(lengths) <= N, "Length longer than N"
         lengths = lengths.unsqueeze(1)
         x = x < lengths
         det_offset = torch.diag_embed((~x).float())
@@ -244,11 +246,13 @@ def deptree_nonproj(arc_scores, multi_root, lengths=None, eps=1e-5):
     Returns:
          arc_marginals : b x N x N.
     """
+    batch, N, N2 = arc_scores.shape
+    assert N == N2, "Non-square potentials"
     if lengths is not None:
-        batch, N, N = arc_scores.shape
         x = torch.arange(N, device=arc_scores.device).expand(batch, N)
         if not torch.is_tensor(lengths):
             lengths = torch.tensor(lengths, device=arc_scores.device)
+        assert max(lengths) <= N, "Length longer than N"
         lengths = lengths.unsqueeze(1)
         x = x < lengths
         det_offset = torch.diag_embed((~x).float())
-- 
2.43.0


From a3f31fa4e0d8022deb2a3134ee2521814ff5b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:42 +0000
Subject: [PATCH 19/19] fix: validate the lengths of the non-projective model

---
 torch_struct/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 0402c20..430135c 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -494,10 +494,13 @@ class NonProjectiveDependencyCRF(StructDistribution):
     """
 
     arg_constraints = {
-        "log_potentials": constraints.real
+        "log_potentials": constraints.real,
+        "lengths": constraints.nonnegative_integer
     }
 
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=False, validate_args=False):
+        if lengths is not None and not torch.is_tensor(lengths):
+            lengths = torch.tensor(lengths, device=log_potentials.device)
         super(NonProjectiveDependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.multiroot = multiroot
 
-- 
2.43.0

