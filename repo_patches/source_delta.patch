From db79cc65418deb517d8d76d9dd2bb048a92e1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 01/15] fix: equal Index objects must have equal hashes (a1 vs
 a01)

---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..885575d 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -73,7 +73,7 @@ class Index:
         return (space_priority[self.space], self.number) >= (space_priority[other.space], other.number)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.space, self.number))
 
     def latex(self, dollar=False):
         out = f"{self.space}_{{{self.number}}}"
-- 
2.43.0


From 9992a7b36e177ce29abd7a637c1e51c7cd2d5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 02/15] fix: iterating Indices must not share state between
 iterators

---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From 5c65fe175a98a60112c6b61065ebf9ffd505a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 03/15] fix: MOSpaceCounter loses counts when both alpha and
 beta labels are given

---
 dsrg_generator/mo_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..129b79f 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -78,7 +78,9 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
+        self._input_counter = {}
+        for k, n in input_counter.items():
+            self._input_counter[k.lower()] = self._input_counter.get(k.lower(), 0) + n
 
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
-- 
2.43.0


From d8fa0e42e97d1adc192c91cab0d10705842d42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 04/15] fix: SpaceCounter uses a non-existent attribute and can
 never be created

---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From 0018559c35da9193126a6eacc5fd208f2dd2cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 05/15] fix: combine_terms must not change the coefficients of
 its input terms

---
 dsrg_generator/phys_op_contraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..f7418eb 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -149,6 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
+        term = Term.from_term(term)
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From ac0d5be8b65a46cd5a7817ebca5ad01cdebfe55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 06/15] fix: bch_cc_rsc drops the active blocks of the
 Hamiltonian for multireference

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index f7418eb..f870168 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -345,11 +345,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From 9e74f23b600fcdb0c406bddb8d234e34d094bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 07/15] fix: canonicalize crashes on a term that vanishes by
 symmetry

---
 dsrg_generator/Term.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..11c1c01 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -771,6 +771,10 @@ class Term:
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
 
+        # the term vanishes by symmetry
+        if gc == 0:
+            return self.void()
+
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
         cre_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[self.sq_op.n_ann:self.sq_op.size]])
-- 
2.43.0


From a07ddd4b2e6595940f6f72f544177dde2b14118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 08/15] fix: generated ambit function ignores its scaling
 factor

---
 dsrg_generator/write_forte_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..ebe2e94 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -75,7 +75,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From b06f83e7b47c7466fa7df13af4ae3a7ada2c1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 09/15] fix: generated ambit function uses temp without
 declaring it

---
 dsrg_generator/write_forte_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index ebe2e94..03dc8b7 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -55,6 +55,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -62,8 +64,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
-- 
2.43.0


From 0b745d1f0ffc7e0a0b20c1a120c2fffb2b8abec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:46 +0000
Subject: [PATCH 10/15] fix: ambit form of an operator with one empty side has
 a dangling comma

---
 dsrg_generator/IndicesPair.py | 4 +---
 dsrg_generator/SQOperator.py  | 5 +++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index ef6cd3a..db61751 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -135,9 +135,7 @@ class IndicesPair:
         """
         if self.is_empty():
             return ""
-        if not upper_first:
-            return f'["{self.lower_indices.ambit()},{self.upper_indices.ambit()}"]'
-        return f'["{self.upper_indices.ambit()},{self.lower_indices.ambit()}"]'
+        return f'["{",".join(map(str, self.indices(upper_first)))}"]'
 
     def diagonal_indices(self):
         """
diff --git a/dsrg_generator/SQOperator.py b/dsrg_generator/SQOperator.py
index 14ff9f1..a3968a8 100644
--- a/dsrg_generator/SQOperator.py
+++ b/dsrg_generator/SQOperator.py
@@ -152,10 +152,11 @@ class SecondQuantizedOperator(IndicesPair):
         :return: a tuple of (sign, a string representation of operator)
         """
         if self.is_empty():
-            return 1, ''
+            yield 1, ''
+            return
 
         for sign, str_1, str_2 in self.permute_indices(p_cre, p_ann, cre_first):
-            yield sign, f'["{str_1},{str_2}"]'
+            yield sign, f'["{",".join(i for i in (str_1, str_2) if i)}"]'
 
     def generate_spin_cases(self, particle_conserving=True):
         """
-- 
2.43.0


From 1edf40222e923ffcd3097f59dc2d4935732e5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:57 +0000
Subject: [PATCH 11/15] fix: integer_partition(1) yields no partition

---
 dsrg_generator/helper/integer_partition.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..d3f16f0 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -9,10 +9,8 @@ def integer_partition(n):
     x = [1] * n
     x[0] = n
     m, h = 1, 1
+    yield x[:1]
     while x[0] != 1:
-        if x[0] == n:
-            yield x[:1]
-
         if x[h - 1] == 2:
             m += 1
             x[h - 1] = 1
-- 
2.43.0


From 88f55a5ecd2aa59c2a25af38e4ccd6917eb7606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:59 +0000
Subject: [PATCH 12/15] fix: simplify keeps the partner of a diagonal index in
 a Kronecker delta connected

---
 dsrg_generator/Term.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 11c1c01..2b11c6d 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -630,7 +630,9 @@ class Term:
                                                        self.diagonal_indices, replacement_diagonal)
                     else:
                         replacement[high] = low
-                        Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+                    # a diagonal index takes its partner along when it gets relabeled
+                    Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+                    Term._add_replacement_diagonal(low, high, self.diagonal_indices, replacement_diagonal)
             else:
                 list_of_tensors.append(tensor)
 
-- 
2.43.0


From 3ad30b37c7a35694ff3b31aedd287c95e5a2de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 13/15] fix: canonicalize mixes creators and annihilators of a
 non-particle-conserving operator

---
 dsrg_generator/IndicesPair.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index db61751..3035ab4 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -294,9 +294,12 @@ class IndicesPair:
         :return: a tuple of (base, strong generating set)
         """
         if not hermitian:
-            u_base, u_gens = get_symmetric_group_sgs(self.n_upper, 1)
+            # lower indices come before upper indices, see Term.canonicalize_sympy
+            if self.n_upper == 0 or self.n_lower == 0:
+                return get_symmetric_group_sgs(self.size, 1)
             l_base, l_gens = get_symmetric_group_sgs(self.n_lower, 1)
-            return bsgs_direct_product(u_base, u_gens, l_base, l_gens)
+            u_base, u_gens = get_symmetric_group_sgs(self.n_upper, 1)
+            return bsgs_direct_product(l_base, l_gens, u_base, u_gens)
 
         if self.n_upper != self.n_lower:
             raise ValueError(f"{self} cannot be Hermitian.")
-- 
2.43.0


From 8b916981f3ea3e1d8a75cf6621d62b3c6b9f448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:00 +0000
Subject: [PATCH 14/15] fix: make_excitation drops spin-integrated terms with
 beta labels

---
 dsrg_generator/Term.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 2b11c6d..5d0edb2 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1057,16 +1057,18 @@ class Term:
         replacement = {}
         next_index_number = {i: 0 for i in self.next_index_number.keys()}
         for i in self.sq_op.cre_ops:
-            overlap = space_relation[part] & space_relation[i.space]
+            label = part.upper() if i.is_beta() else part
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = part if overlap == space_relation[part] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
         for i in self.sq_op.ann_ops:
-            overlap = space_relation[hole] & space_relation[i.space]
+            label = hole.upper() if i.is_beta() else hole
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = hole if overlap == space_relation[hole] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
 
         for tensor in self.list_of_tensors:
-- 
2.43.0


From 8b5e0ee81f3b45fdc0f220f46df271563ec34c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 15/15] fix: save forte functions for terms with density
 cumulants

---
 dsrg_generator/write_forte_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 03dc8b7..dd1132f 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -17,6 +17,7 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     tensor_ordering = {f"H{i}": i for i in range(1, 10)}
     tensor_ordering.update({f"T{i}": i + 100 for i in range(1, 10)})
+    tensor_ordering.update({f"L{i}": i + 150 for i in range(1, 10)})
     tensor_ordering.update({f"C{i}": i + 200 for i in range(10)})
     tensor_types = {i: 'double' if i == 'C0' else 'BlockedTensor' for i in tensor_ordering}
 
-- 
2.43.0

