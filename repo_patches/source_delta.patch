From edee6c3ba5f26dd23f8ced72d553604da5a6fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 01/61] fix: subtransition lookup by (lower, upper) returns
 that subtransition

t[('F=1', 'F=2')] tried the reversed key first, so whenever both F=1 -> F=2 and
F=2 -> F=1 exist it returned the wrong one.
---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..cf2e8d3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -670,9 +670,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From d5e1f40d3e8f39b306ea75b2e0b1ea557163adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 02/61] fix: a transition with populated subtransitions can be
 added to an atom again

add_to_atom iterated over the keys of the subtransitions dict instead of its values.
---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index cf2e8d3..790416d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -646,7 +646,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From 02fb8f42bfb9f3250f71e63621afea4833d0acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 03/61] fix: forbidden subtransitions don't stay in the atom's
 hyperfine and Zeeman graphs

A subtransition adds itself to the atom when constructed, so candidates that turned out
to be forbidden were left behind as edges, and showed up in linked_levels.
---
 atomtoolkit/atom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 790416d..9f08ab7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -733,7 +733,8 @@ class Transition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                # the constructor has already added it to the atom
+                self._submodel.remove_edge(t.E_lower.name, t.E_upper.name)
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
@@ -795,7 +796,8 @@ class HFTransition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                # the constructor has already added it to the atom
+                self._submodel.remove_edge(t.E_lower.name, t.E_upper.name)
 
     def set_frequency(self, freq: pint.Quantity):
         diff = freq - self.freq
-- 
2.43.0


From 1eae71e8fdea3dcf9486e0005a05450111f0aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 04/61] fix: E2 Zeeman line strengths use the F of both
 hyperfine levels

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9f08ab7..ecdface 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -819,7 +819,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From 41dd73977c49e5a6451af40e68ef5322445600d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 05/61] fix: magnetic octupole hyperfine shift was too large by
 2I-1

The denominator of the octupole term is I(I-1)(2I-1)J(J-1)(2J-1), so that the C coefficient
contributes exactly C to the stretched state.
---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ecdface..1da0929 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From ea1bae7cb41e2534cfcaee9754a7c51c6e4886ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 06/61] fix: branching ratios respect the units of A, and
 report missing A coefficients

The magnitudes were added without converting them to a common unit (A can be assigned in any
unit), and a missing A raised AttributeError instead of the intended ValueError.
---
 atomtoolkit/atom.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 1da0929..676d972 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1122,12 +1122,13 @@ class Atom:
             if t.E_upper.name == key:
                 A_coeffs[n] = t.A
         try:
-            totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+            A_coeffs = {n: A.to(Hz).magnitude for n, A in A_coeffs.items()}
+        except AttributeError:
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
 
-        ratios = {k: t.magnitude / totalAs for k, t in A_coeffs.items()}
+        totalAs = np.sum(list(A_coeffs.values()))
+        ratios = {k: A / totalAs for k, A in A_coeffs.items()}
         return ratios
 
     def enforce_consistency(self, node_or_trans: BaseLevel or BaseTransition = None):
-- 
2.43.0


From f4c04d66a90c68ca36d5cd9b3f8cfb7e36f83e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 07/61] fix: setting the frequency of a subtransition in
 nonlinear units

pint evaluated `wavelength - frequency` as a difference of wavelengths, and that was then
converted to a frequency shift, so setting a wavelength put the levels somewhere else entirely.
---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 676d972..a72e77d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -800,7 +800,7 @@ class HFTransition(BaseTransition):
                 self._submodel.remove_edge(t.E_lower.name, t.E_upper.name)
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
@@ -847,7 +847,7 @@ class ZTransition(BaseTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-- 
2.43.0


From 6eae1b4d8b0b8cb20a519a4e3ae8f6fd8a98404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 08/61] fix: setting the level of a sublevel in nonlinear units

Same problem as with the subtransition frequencies: convert to Hz before taking the difference.
---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a72e77d..d0f65a4 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -454,7 +454,7 @@ class HFLevel(BaseLevel):
         parent to move by the same amount instead of moving itself
         :param value: the new level of the hyperfine level
         """
-        shift = value - self.level
+        shift = value.to(Hz) - self.level
         self.parent.level += shift
 
     def compute_gF(self) -> float:
-- 
2.43.0


From 4dd982d4e762f05b5d68944f6c5bb974135f9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 09/61] fix: transitions can be accessed by every documented
 key, whatever order the levels were added in

---
 atomtoolkit/atom_helpers.py | 46 ++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..e967598 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -104,6 +104,7 @@ class TransitionStructure:
         Parses the key to return the associated transition. Supports various kinds of access. Access by:
             - Tuple[int, int]:
                  (n, m) returns the transition between the nth-lowest-lying level and the mth-lowest-lying level
+            - Tuple[BaseLevel, BaseLevel]
             - alias
             - ([conf] [term] F=[F] mF=[mF], [conf] [term] F=[F] mF=[mF])
             - ([conf] [term] mJ=[mJ], [conf] [term] mJ=[mj])
@@ -115,29 +116,28 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
-        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
-            k_lower, k_upper = key[1], key[0]
-        else:
-            k_lower, k_upper = key[0], key[1]
-        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
-            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
-            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
-        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
-            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
-            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
-        else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+        level_0, level_1 = (self.atom.levels[k] if isinstance(k, (int, str)) else k for k in key)
+        transition = self.model.edges[level_0.manifold.name, level_1.manifold.name]['transition']
+        # walk down from the EnergyLevels to the (sub)levels named by the key
+        lineage_0, lineage_1 = self._lineage(level_0), self._lineage(level_1)
+        if len(lineage_0) != len(lineage_1):
+            raise KeyError(key)
+        for ancestors in zip(lineage_0, lineage_1):
+            names = {level.name for level in ancestors}
+            try:
+                transition = next(t for t in transition.subtransitions() if {t.E_1.name, t.E_2.name} == names)
+            except StopIteration:
+                raise KeyError(key)
+        return transition
+
+    @staticmethod
+    def _lineage(level: BaseLevel) -> List[BaseLevel]:
+        """returns the level and its ancestors, from outermost to innermost, excluding the EnergyLevel"""
+        lineage = []
+        while level is not level.manifold:
+            lineage.insert(0, level)
+            level = level.parent
+        return lineage
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From 842a6651644dbdd2a84a97b430ae47ef62714337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 10/61] fix: a transition brings its levels with it when it's
 added to an atom

---
 atomtoolkit/atom.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d0f65a4..6c00b30 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -578,7 +578,7 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
-        if alias is not None:
+        if alias is not None and self.atom is not None:
             self.atom.transitions.aliases[alias] = self
 
     def __str__(self):
@@ -725,6 +725,13 @@ class Transition(BaseTransition):
         self._model = self.atom.transitions.model
         self._submodel = self.atom.transitions.hf_model
 
+    def add_to_atom(self, atom: Atom):
+        """Add the transition to the atom, bringing along any of its EnergyLevels that aren't in the atom yet"""
+        for level in (self.E_1, self.E_2):
+            if 'level' not in atom.levels.model.nodes.get(level.name, {}):
+                atom.add_level(level)
+        super().add_to_atom(atom)
+
     def populate_subtransitions(self):
         """Creates HFTransitions for every allowed pair of hyperfine sublevels in the transition's EnergyLevels"""
         pairs = self._compute_sublevel_pairs('F')
-- 
2.43.0


From bbb4f58c6412b74d6e6f7aba35f390124ddbbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 11/61] fix: populate_transitions finds every allowed pair of
 levels and adds only those

---
 atomtoolkit/atom.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 6c00b30..aaeb35a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1038,11 +1038,9 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
-        # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        # since the ordering of the list is potentially E1, M1, E2, M2, etc. the maximum deltas are 1, 1, 2, 2, etc.
+        max_delta = max((i // 2 + 1 for i in range(len(allowed)) if allowed[i]), default=-1)
+        allowed_deltas = range(max_delta + 1)
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1054,13 +1052,14 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        # the constructor has already added it to the atom
+                        self._levelsModel.remove_edge(pair[0].name, pair[1].name)
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 6755bf09c77e5bd1ac131113a14e8fc83a7a4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 12/61] fix: levels keep following all the set transition
 frequencies when one is set again

---
 atomtoolkit/atom.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index aaeb35a..47fc6e9 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1165,14 +1165,21 @@ class Atom:
                     lowest, key_lowest = node, key
             # perform a depth first search starting from the lowest energy node in the subgraph,
             # setting subsequent levels one at a time
+            # (the levels that an earlier enforcement fixed have to be free to follow the new constraints)
+            for _, node in nodes:
+                node.fixed = False
+            lowest.fixed = True
             search = nx.dfs_edges(subgraph, source=key_lowest)
             for edge in search:
                 t = subgraph.edges()[edge]['transition']
                 e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
+                if e_u.fixed:
                     e_l.level_Hz = e_u.level_Hz - freq
                 else:
                     e_u.level_Hz = e_l.level_Hz + freq
                 e_u.fixed = e_l.fixed = True
+            # the edges that the search didn't need are the ones that close loops, and might not be satisfied
+            for u, v, t in subgraph.edges(data='transition'):
+                freq = t.set_freq.to(Hz).magnitude
+                if u != v and not np.isclose(t.freq_Hz, freq, rtol=1e-12, atol=1e-12 * abs(t.E_upper.level_Hz)):
+                    warnings.warn(f'Constraint problem encountered when checking {(u, v)}. Loop of fixed transitions?')
-- 
2.43.0


From b8127e54cc0b496a768f73d802c11a3eea1c9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 13/61] fix: estimated Lande g-values weight each component by
 its percentage and squared amplitude

---
 atomtoolkit/atom.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 47fc6e9..00a0bd7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -337,26 +337,30 @@ class EnergyLevel(BaseLevel):
         :return: gJ
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
+        J = self.term.J
+        if not J:  # a level with J=0 has no magnetic moment
+            return 0.0
         total = 0
-        for pct, term in self.term.terms_dict.items():
-            if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
-            elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
-            elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
-            elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
-            else:
+        total_pct = sum(term.percentage for term in self.term.terms) or 1.0
+        for term in self.term.terms:
+            try:
+                if term.coupling == 'LS':
+                    terms = np.array([[term.l], [term.s], [1.0]])
+                elif term.coupling == 'JJ':
+                    terms = JJ_to_LS(J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
+                elif term.coupling == 'JK':
+                    terms = JK_to_LS(J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
+                elif term.coupling == 'LK':
+                    terms = LK_to_LS(J, term.l, term.k, term.sc, term.so)
+                else:
+                    return 0.0
+            except TypeError:  # not all of the necessary quantum numbers are known
                 return 0.0
 
-            J = term.J
-            ls, ss, percents = terms
+            ls, ss, ampls = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
+            total += (term.percentage / total_pct) * sum(ampls ** 2 * (
+                    1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1)) / (2 * J * (J + 1))))
         return total
 
     @classmethod
-- 
2.43.0


From 2413c23604f165c56d88ae6aa068deb0b9e045ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 14/61] fix: levels without a tabulated Lande g-value get the
 estimated one instead of NaN

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 00a0bd7..d4166b2 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -372,7 +372,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=(None if pd.isna(lande) else lande))
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From 68c81a01c5ae7f3b147a1543910e7beb88d808e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 15/61] fix: tensor transition strengths have the multiplicity
 of F1, not 2 F1 + 2

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From 29048abcac18fae80decf9c822351b3659f0e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 16/61] fix: E2 geometric factors follow from the rank-2 tensor
 of the polarization and k-vector

---
 atomtoolkit/transition_strengths.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..bb0ebd9 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -99,15 +99,15 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (-6 ** 0.5 * k[0] * eps[0] + 6 ** 0.5 * k[1] * eps[1] + (2. / 3.) * 6 ** 0.5 * k[2] * eps[2])
+           (6 ** 0.5 / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
@@ -122,11 +122,11 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[2] + eps[2] * k[1]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
+           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[2] + eps[2] * k[1]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From fe619335faf3e47cd3d152ede000d7e59d2e8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 17/61] fix: geometric transition strengths accept the
 documented numpy arrays

---
 atomtoolkit/transition_strengths.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index bb0ebd9..731bd76 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -34,7 +34,6 @@ def tkq_mel(I: float, k: int, q: int,
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -45,7 +44,6 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -61,7 +59,6 @@ def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -72,7 +69,6 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -90,7 +86,6 @@ def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -111,7 +106,6 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
-- 
2.43.0


From 0fa4b4ef28e06e823e0f3203044698706a14b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 18/61] fix: terms differing in J, F, mF or number of
 components aren't equal, and MultiTerms have a repr

---
 atomtoolkit/term.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 91374d6..50a0909 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -77,7 +77,8 @@ class Term:
         # CONSIDER: rn this matches multiterms. Is this the behavior I want?
         return self.quantum_nums == other.quantum_nums and \
                self.conf == other.conf and \
-               self.term == other.term
+               self.term == other.term and \
+               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
 
     def make_term_copy(self, F: float = None, mF: float = None) -> Term:
         """
@@ -121,7 +122,7 @@ class MultiTerm(collections.abc.Sequence):
         return object.__getattribute__(self, item)
 
     def __repr__(self):
-        return MultiTerm(*self.terms)
+        return f'MultiTerm({", ".join(repr(t) for t in self.terms)})'
 
     def __str__(self):
         return f"{self.terms[0]} ({self.terms[0].percentage})"
@@ -139,7 +140,7 @@ class MultiTerm(collections.abc.Sequence):
     def __eq__(self, other: Term or MultiTerm) -> bool:
         if isinstance(other, Term):
             return self[0] == other
-        return np.all([self[i] == other[i] for i in range(len(self))])
+        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
 
     def make_term_copy(self, F: float = None, mF: float = None) -> MultiTerm:
         """
-- 
2.43.0


From 611488aa06e1a45cf8ded2dd1bec4776b07a334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 19/61] fix: saving to a path that contains other dots uses the
 given path

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d4166b2..6362cec 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -988,10 +988,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with open(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From 78e52b09fdd7cdcdffb600560b04e4070dfba6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 20/61] fix: levels and transitions can be deleted and assigned
 by key, taking their substructure and aliases along

---
 atomtoolkit/atom_helpers.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index e967598..e73aad1 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -60,7 +60,14 @@ class LevelStructure:
         self.atom.add_level(value, alias=key)
 
     def __delitem__(self, key: str):
-        self.model.remove_node(key)
+        level = self[key]
+        self.model.remove_node(level.name)
+        # the level's sublevels, (sub)transitions and aliases go with it
+        for model in (self.hf_model, self.z_model):
+            model.remove_nodes_from([name for name, lvl in model.nodes(data='level') if lvl is not None and lvl.manifold is level])
+        self.aliases = {alias: lvl for alias, lvl in self.aliases.items() if lvl.manifold is not level}
+        self.atom.transitions.aliases = {alias: t for alias, t in self.atom.transitions.aliases.items()
+                                         if level not in (t.E_1.manifold, t.E_2.manifold)}
 
     def __len__(self) -> int:
         return len(nx.get_node_attributes(self.model, 'level'))
@@ -139,11 +146,19 @@ class TransitionStructure:
             level = level.parent
         return lineage
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: str, value: Transition):
         self.atom.add_transition(value)
-
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+        value.alias = key
+
+    def __delitem__(self, key: Tuple[str, str] or Tuple[int, int]):
+        transition = self[key]
+        self.model.remove_edge(transition.E_1.name, transition.E_2.name)
+        # the transition's subtransitions and aliases go with it
+        levels = {transition.E_1, transition.E_2}
+        for model in (self.hf_model, self.z_model):
+            model.remove_edges_from([(u, v) for u, v, t in model.edges(data='transition')
+                                     if {t.E_1.manifold, t.E_2.manifold} == levels])
+        self.aliases = {alias: t for alias, t in self.aliases.items() if {t.E_1.manifold, t.E_2.manifold} != levels}
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From 150844103d05b38181ff4e6faef26585b2d8b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 21/61] fix: LightField rejects polarizations shorter than a
 unit vector

---
 atomtoolkit/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/environment.py b/atomtoolkit/environment.py
index effcc89..5e119f3 100644
--- a/atomtoolkit/environment.py
+++ b/atomtoolkit/environment.py
@@ -16,7 +16,7 @@ class LightField:
             right circular = 2**(-0.5) * [1, 1j, 0]
         """
         self.k = k
-        assert np.linalg.norm(pol) - 1 < 1e-6, "polarization must be a unit vector"
+        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
         self.pol = pol
         self.intensity = i
 
-- 
2.43.0


From 0250286e43da8dcdb7b7c0cc3efb1667d64931b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 22/61] fix: selection rules exclude pairs of levels whose J
 can't couple to the photon's rank

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 6362cec..ca0f75c 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -721,9 +721,9 @@ class Transition(BaseTransition):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
-        return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
-                (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
+                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
+                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
 
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
-- 
2.43.0


From d9040e54bf1d1df6e6be6fa77ce48f01dc567e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 23/61] fix: linked levels, lifetimes and branching ratios
 accept every level key and keep existing subtransitions

---
 atomtoolkit/atom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ca0f75c..f74f095 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1101,9 +1101,9 @@ class Atom:
         level = self.levels[key]
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
-                trans.populate_subtransitions()
-        adjacent = level.model.adj[key]
-        return {k: t['transition'] for k, t in adjacent.items() if k != key}
+                trans.subtransitions()
+        adjacent = level.model.adj[level.name]
+        return {k: t['transition'] for k, t in adjacent.items() if k != level.name}
 
     def state_lifetime(self, key: str) -> pint.Quantity:
         """
@@ -1127,7 +1127,7 @@ class Atom:
         transitions = self.linked_levels(key)
         A_coeffs = {}
         for n, t in transitions.items():
-            if t.E_upper.name == key:
+            if t.E_upper is self.levels[key]:
                 A_coeffs[n] = t.A
         try:
             A_coeffs = {n: A.to(Hz).magnitude for n, A in A_coeffs.items()}
-- 
2.43.0


From 00c2fcf2f55997483c4b6102a09f43c9728eb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 24/61] fix: Grotrian sublevel widths are relative to the
 F=squeeze level, also for half-integer or zero F

---
 atomtoolkit/render/grotrian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..991c884 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,9 +282,9 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
         squeeze = int(2 * squeeze + 1)
@@ -335,7 +335,7 @@ class Grotrian:
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
         sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        space_width = (1 - fill_factor) * W / max(squeeze - 1, 1)
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
@@ -365,7 +365,7 @@ class Grotrian:
         i = level.term.F - min(Fs)
 
         w_null = W - (N - 1) * offset * W
-        wF = W * (2 * level.term.F + 1) / (2 * squeeze + 1)
+        wF = W * (2 * level.term.F + 1) / squeeze
         dx = (1 - a) * w_null / 2 + a * wF / 2
         y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
         p0 = (offset * W * i - dx + x1 + x0, y)
-- 
2.43.0


From 049bdd22351bcb2442d7f97f6473f90ddb675747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 25/61] fix: mod_lorentzian works with its default number of
 sidebands

---
 atomtoolkit/render/lineshapes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 98e8882..4b11b71 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -9,6 +9,7 @@ a Gaussian is just as often characterized by its standard deviation
 """
 
 from abc import ABC, abstractmethod
+from math import factorial
 
 import numpy as np
 from scipy.special import jv, voigt_profile
@@ -28,9 +29,19 @@ def voigt(x, x0, sigma: float, gamma: float, ampl: float = 1.0):
     return ampl * voigt_profile(x - x0, sigma, gamma)
 
 
+def default_num_sidebands(depth: float) -> int:
+    """the number of sidebands with a non-negligible amplitude at the given modulation depth"""
+    num_sidebands = 0
+    while (depth / 2) ** num_sidebands > 0.01 * factorial(num_sidebands):
+        num_sidebands += 1
+    return num_sidebands
+
+
 def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float = 0.0, num_sidebands: int = None,
                    mod_freq_GHz: float = 1.0):
-    tot = np.zeros_like(x)
+    if num_sidebands is None:
+        num_sidebands = default_num_sidebands(depth)
+    tot = np.zeros_like(x, dtype=float)
     tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
     for i in range(1, num_sidebands + 1):
         mod_ampl = ampl * float(jv(i, depth) ** 2)
@@ -88,10 +99,8 @@ class ModLorentzianLineShape(LineShape):
         self.gamma = gamma
         self.mod_freq_GHz = mod_freq_GHz
         self.depth = depth
-        self.num_sidebands = 0
         if num_sidebands is None:
-            while (self.depth / 2) ** self.num_sidebands > 0.01 * np.math.factorial(self.num_sidebands):
-                self.num_sidebands += 1
+            self.num_sidebands = default_num_sidebands(depth)
         else:
             self.num_sidebands = num_sidebands
 
-- 
2.43.0


From 6103ff4e546e0f0962d997a001ce11f61ca81561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 26/61] fix: thermal lineshapes have the Doppler standard
 deviation and can be evaluated

---
 atomtoolkit/render/lineshapes.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 4b11b71..011502b 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -50,6 +50,11 @@ def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float =
     return tot
 
 
+def doppler_sigma(T, m) -> float:
+    """the standard deviation of a Doppler-broadened line, relative to its frequency"""
+    return ((ureg.k * T / (m * c ** 2)) ** 0.5).to('dimensionless').magnitude
+
+
 class LineShape(ABC):
     def __init__(self):
         pass
@@ -63,7 +68,7 @@ class LineShape(ABC):
         raise NotImplementedError
 
     def compute(self, x0, num_points: int = 1000, **kwargs):
-        width = self.width_func(**kwargs)
+        width = self.width_func(x0=x0, **kwargs)
         x_values = np.linspace(x0 - width, x0 + width, num_points)
         y_values = self.shape_func(x_values, x0, **kwargs)
         return x_values, y_values
@@ -147,15 +152,15 @@ class GaussianLineShape(LineShape):
 class ThermalGaussianLineShape(LineShape):
     def __init__(self, T, m):
         super().__init__()
-        self.sigma = (8*ureg.k*T/(m*c**2))**0.5
+        self.sigma = doppler_sigma(T, m)
         self.fwhm = self.sigma * 2.355
 
     def shape_func(self, x, x0, **kwargs):
         ampl = kwargs.get('ampl', 1.0)
         return gaussian(x, x0, self.sigma*x0, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
+    def width_func(self, padding=20.0, x0=1.0, **kwargs):
+        return padding * self.sigma * x0
 
 
 class ThermalLineShape(LineShape):
@@ -163,17 +168,17 @@ class ThermalLineShape(LineShape):
 
     def __init__(self, T, m, gamma):
         super().__init__()
-        self.sigma = (8 * ureg.k * T / (m * c ** 2)) ** 0.5
+        self.sigma = doppler_sigma(T, m)
         self.fwhm = self.sigma * 2.355
         self.gamma = gamma
 
     def shape_func(self, x, x0, **kwargs):
         ampl = kwargs.get('ampl', 1.0)
-        if self.gamma/(self.sigma*x0) > self.cutoff:
+        if self.gamma > self.cutoff * (self.sigma*x0):
             return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
-        elif (self.sigma*x0)/self.gamma > self.cutoff:
+        elif (self.sigma*x0) > self.cutoff * self.gamma:
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
\ No newline at end of file
+    def width_func(self, padding=20.0, x0=1.0, **kwargs):
+        return padding * max(self.sigma * x0, self.gamma)
\ No newline at end of file
-- 
2.43.0


From f2f119fd3c401b778249e09523b06809a2aaca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 27/61] fix: plot_spectrum forwards its keyword arguments and
 accepts a transition or no temperature

---
 atomtoolkit/render/spectra.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..6fbc09a 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -154,17 +154,17 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     # determine the lineshape:
     if lineshape is not None:
         lineshape_func = lineshape
-    elif temp.magnitude == 0:
-        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to(GHz).magnitude)
+    elif temp is None or temp.magnitude == 0:
+        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
     else:
         assert mass is not None, "thermal lineshape requires mass to be given"
-        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +196,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict, **kwargs)
-- 
2.43.0


From ed246a28a25f622f0e8912ebdeb418269275d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 28/61] fix: generate_full_from_dataframe accepts the allowed
 transition types

---
 atomtoolkit/IO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..27f7b90 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -310,6 +310,7 @@ def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
         else:
             a.populate_transitions(**kwargs)
     else:
-        a.populate_transitions(allowed=(True, False, False), **kwargs)
+        kwargs.setdefault('allowed', (True, False, False))
+        a.populate_transitions(**kwargs)
     a.populate_internal_transitions()
     return a
-- 
2.43.0


From e983335d71a23709805b3fa7bc27f0a824f80b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 29/61] fix: transition tables can give J as a fraction

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f74f095..9454562 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1080,8 +1080,8 @@ class Atom:
         """
         rows = tqdm(list(df.iterrows()))
         for _, row in rows:
-            j_l = util.float_to_frac(float(row['j_l']))
-            j_u = util.float_to_frac(float(row['j_u']))
+            j_l = util.float_to_frac(util.frac_to_float(row['j_l']))
+            j_u = util.float_to_frac(util.frac_to_float(row['j_u']))
             try:
                 e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                 e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
-- 
2.43.0


From 51656a71c0e49d90ae8ac81a4e16ab017da7d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 30/61] fix: zero in wavenumbers converts to zero frequency, as
 the wavenumber context intends

---
 atomtoolkit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..1494640 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -14,7 +14,7 @@ _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.enable_contexts('spectroscopy', _c)
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From 8e5c4eda0f460c019391f8560cff1b4acb04d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 31/61] fix: Wigner symbols that are zero compare equal to 0.0,
 so forbidden components aren't generated

---
 atomtoolkit/wigner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..c0c82f1 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -17,7 +17,6 @@ except ImportError:
     from sympy.physics.wigner import wigner_3j as _wigner3j
     from sympy.physics.wigner import wigner_6j as _wigner6j
     from sympy.physics.wigner import wigner_9j as _wigner9j
-    from sympy import N
 
     PY3NJ_INSTALLED = False
 
@@ -39,7 +38,7 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                return float(func(*args))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From cee1a35a06df72cbd2adf190d458bd9d721accbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 32/61] fix: levels with alternative J values are imported
 without a stray space in J

---
 atomtoolkit/IO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 27f7b90..c0ca5d2 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -119,6 +119,7 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
     df_clean = df_clean.explode('J')
+    df_clean.J = df_clean.J.str.strip()
     # reset the indices, since we may have dropped some rows
     df_clean.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 56591adfc5b87bcfeeaa866ce65bb095f8ba115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 33/61] fix: NIST listings without an ionization limit are
 imported instead of coming out empty

---
 atomtoolkit/IO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index c0ca5d2..3973a81 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -114,7 +114,8 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Level (Hz)'] = df_clean['Level (cm-1)'].pint.to('Hz')
 
     # remove any terms above ionization, and the ionization row
-    df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
+    if (df_clean['Term'] == 'Limit').any():
+        df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
     # split up levels with multiple J
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
-- 
2.43.0


From 920710d6ab413bdb8f23a328e58c4d05b93e6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 34/61] fix: a leading percentage without a second component is
 imported

---
 atomtoolkit/IO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 3973a81..8de8268 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -101,6 +101,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
 
     df_clean['Configuration_2'] = df_clean.apply(
         lambda k: reconstitute_conf(k['Configuration'], k['Configuration_2']), axis=1)
+    #    a leading percentage can also stand alone, without a second component
+    df_clean['Percentage'] = df_clean['Percentage'].fillna(
+        df_clean['Leading percentages'].str.extract(r'^(\d+)\ *$', expand=False))
     df_clean['Percentage'] = pd.to_numeric(df_clean['Percentage'], errors='coerce')
     df_clean['Percentage_2'] = pd.to_numeric(df_clean['Percentage_2'], errors='coerce')
     df_clean['Percentage'] = df_clean['Percentage'].fillna(value=100.0)
-- 
2.43.0


From 0c4dc95ef76ac3e0eb87247a2a71a9719741b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 35/61] fix: linked levels of a sublevel include those reached
 by internal transitions

---
 atomtoolkit/atom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9454562..fa30249 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1100,7 +1100,9 @@ class Atom:
         """
         level = self.levels[key]
         if not isinstance(level, EnergyLevel):
-            for k, trans in self.linked_levels(level.parent.name).items():
+            # the components of the parent's transitions (including the internal ones) have to be populated first
+            self.linked_levels(level.parent.name)
+            for _, _, trans in list(level.parent.model.edges(level.parent.name, data='transition')):
                 trans.subtransitions()
         adjacent = level.model.adj[level.name]
         return {k: t['transition'] for k, t in adjacent.items() if k != level.name}
-- 
2.43.0


From 0df5eb5dfc04450d22cc34f8bbf7cd33414802e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 36/61] fix: a pair of levels that is already connected is
 recognised in either order

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index fa30249..9a438cb 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -957,7 +957,7 @@ class Atom:
         """
         # CONSIDER: Should you be able to add non-top-level transitions directly to an atom?
         if isinstance(transition, tuple):
-            if transition in self.transitions.keys():
+            if transition in self.transitions.keys() or transition[::-1] in self.transitions.keys():
                 warnings.warn(f'transition {transition} is already in {self.name}')
                 transition = self.transitions[transition]
             elif isinstance(transition[0], str):
-- 
2.43.0


From 2600b5f7436135f17783526d20159eacd49def27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 37/61] fix: quick diagrams of hyperfine and Zeeman structure
 have positions for their sublevels

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 991c884..feb0cef 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -13,13 +13,13 @@ def draw_levels(atom: Atom, plot_type: str = 'norm', **kwargs):
     Draws a quick and dirty grotrian diagram.
     Placeholder for a more complete grotrian functionality
     """
-    positions = {l.name: (l.term.J, l.level_Hz/1e12) for l in atom.levels.values()}
     if plot_type == 'hf':
         model = atom._hfModel.copy()
     elif plot_type == 'z':
         model = atom._zModel.copy()
     else:
         model = atom._levelsModel.copy()
+    positions = {name: (l.term.J, l.level_Hz/1e12) for name, l in model.nodes(data='level')}
     for node in model.nodes():
         try:
             model.remove_edge(node, node)
-- 
2.43.0


From 039da625dfe54bae206b04e6321581488a9e4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:39 +0000
Subject: [PATCH 38/61] fix: brackets are drawn with the colour and line width
 of their own level

---
 atomtoolkit/render/grotrian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index feb0cef..b74b805 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -195,8 +195,9 @@ class Grotrian:
                                               h=row['kwargs'].get('bracket_h', 0.05)))
 
         # draw the brackets
-        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
-        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
+        bracket_kwargs = [d for d in self.lines_df['kwargs'] if d.get('bbox', None) == 'bracket' for _ in range(2)]
+        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in bracket_kwargs]
+        bracket_lws = [d.get('bracket_lw', 1) for d in bracket_kwargs]
         brackets = matplotlib.collections.LineCollection(bracket_list, colors=bracket_colors, linewidths=bracket_lws)
         axes.add_collection(brackets)
 
-- 
2.43.0


From 9e6c47ddaef2122d0b590044444d8191ebb6191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 39/61] fix: rendering a diagram again does not draw its levels
 twice

---
 atomtoolkit/render/grotrian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index b74b805..6cb308d 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -173,6 +173,7 @@ class Grotrian:
                     [(max_x - h, min_y), (max_x, min_y), (max_x, max_y), (max_x - h, max_y)]]
 
         # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons)
+        self.lines_df = self.lines_df[:0]
         for i, row in self.level_prompts.iterrows():
             self.lines_df = pd.concat([self.lines_df, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))],
                                       ignore_index=True)
-- 
2.43.0


From 3de987d9e96c2d524c1791754cc5a294f1c5b2f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 40/61] fix: components of transitions between overlapping
 levels do not replace each other

---
 atomtoolkit/atom.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9a438cb..8edfcdf 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -666,6 +666,16 @@ class BaseTransition(ABC):
         return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
+    def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
+        """
+        Returns the key of a subtransition: the names of the sublevels of the transition's lower and upper level.
+        (when the levels overlap, a sublevel of the lower level can be the upper level of the subtransition)
+        """
+        lower, upper = t.E_lower, t.E_upper
+        if self.E_1 is not self.E_2 and lower.parent is not self.E_lower:
+            lower, upper = upper, lower
+        return lower.term.short_name, upper.term.short_name
+
     # region: dict-like-methods
 
     @lazy_compute_subtransitions
@@ -743,7 +753,7 @@ class Transition(BaseTransition):
         for a, b in pairs:
             t = HFTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 # the constructor has already added it to the atom
                 self._submodel.remove_edge(t.E_lower.name, t.E_upper.name)
@@ -806,7 +816,7 @@ class HFTransition(BaseTransition):
         for a, b in pairs:
             t = ZTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 # the constructor has already added it to the atom
                 self._submodel.remove_edge(t.E_lower.name, t.E_upper.name)
-- 
2.43.0


From 86db20f6bb7d9e59188a2fcf0d5aec5be387c9e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 41/61] fix: levels are loaded from the i-th row of a table,
 whatever its index

---
 atomtoolkit/atom.py | 6 +++---
 atomtoolkit/term.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 8edfcdf..908a5db 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -372,8 +372,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        lande = df["Lande"][i]
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=(None if pd.isna(lande) else lande))
+        lande = df["Lande"].iloc[i]
+        return EnergyLevel(t, df["Level (cm-1)"].iloc[i], lande=(None if pd.isna(lande) else lande))
 
 
 class HFLevel(BaseLevel):
@@ -1031,7 +1031,7 @@ class Atom:
         if num_levels is None:
             num_levels = len(df)
         a = Atom(name, I=I, B=B)
-        rows = tqdm(range(num_levels))
+        rows = tqdm(range(min(num_levels, len(df))))
         for i in rows:
             try:
                 e = EnergyLevel.from_dataframe(df, i)
diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 50a0909..8398eea 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -96,7 +96,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"].iloc[i], df["Term"].iloc[i], df["J"].iloc[i], percentage=df["Leading percentages"])
 
 
 class MultiTerm(collections.abc.Sequence):
@@ -159,6 +159,7 @@ class MultiTerm(collections.abc.Sequence):
         pcts = [c for c in df.columns if 'Percentage' in c]
         term_objs = []
         for j in range(len(confs)):
-            if type(df[confs[j]][i]) == str:
-                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
+            if type(df[confs[j]].iloc[i]) == str:
+                term_objs.append(Term(df[confs[j]].iloc[i], df[terms[j]].iloc[i], df['J'].iloc[i],
+                                      percentage=df[pcts[j]].iloc[i]))
         return MultiTerm(*term_objs)
-- 
2.43.0


From db01a00ff205569421e50257593a7202ef206a62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 42/61] fix: blank cells of a table of transitions do not
 become frequencies and A coefficients of NaN

---
 atomtoolkit/atom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 908a5db..e6efcf8 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1095,8 +1095,9 @@ class Atom:
             try:
                 e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                 e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
-                freq = row["freq"]
-                A = row["A"]
+                # blank cells are read in as NaN
+                freq = None if pd.isna(row["freq"]) else row["freq"]
+                A = None if pd.isna(row["A"]) else row["A"]
                 t = Transition(e1, e2, freq=freq, A=A)
                 rows.set_description(f'adding transition {t.name:104}')
                 self.add_transition(t)
-- 
2.43.0


From 1b61bc61d4052285aded7e043d957cc2cdf7a0b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 43/61] fix: l_to_let rejects negative numbers and fractional
 numpy numbers

---
 atomtoolkit/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/util.py b/atomtoolkit/util.py
index b6f2560..742a66e 100644
--- a/atomtoolkit/util.py
+++ b/atomtoolkit/util.py
@@ -23,11 +23,10 @@ def l_to_let(l: int or float) -> str:
     :param l: a positive integer
     :return: the corresponding L-value in spectroscopic notation
     """
-    if type(l) is float:
-        if not l.is_integer():
-            raise (ValueError("Requires an integer or an integer-valued float"))
     if type(l) is str:
         raise TypeError()
+    if l != int(l) or l < 0:
+        raise ValueError("Requires a non-negative integer or integer-valued float")
     return 'SPDFGHIKLMNOQRTUVWXYZ'[int(l)]
 
 
-- 
2.43.0


From f766cc092ec945f035b480127016f284e7dd3b42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 44/61] fix: populating the sublevels of a level again keeps
 the ones it has

---
 atomtoolkit/atom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index e6efcf8..994d223 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -953,8 +953,7 @@ class Atom:
         if level.alias is not None:
             self.levels.aliases[level.alias] = level
         if populate_sublevels:
-            level.populate_sublevels()
-            for sublevel in list(level.values()):
+            for sublevel in list(level.values()):  # populates them, if the level doesn't have any yet
                 sublevel.add_to_atom(self)
         return level
 
-- 
2.43.0


From b259b94172f9aa49685076518a5832de9ec0ef40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 45/61] fix: bbox_pad is used for the boxes of hyperfine and
 Zeeman structure

---
 atomtoolkit/render/grotrian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 6cb308d..0a5781a 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -422,7 +422,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0'])+list(table['p1']))),
+                                                          (list(table['p0'])+list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)], ignore_index=True)
         elif isinstance(level, HFLevel):
@@ -455,7 +456,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0']) + list(table['p1']))),
+                                                          (list(table['p0']) + list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)],
                               ignore_index=True)
@@ -469,7 +471,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_hflevel_row(level,
                                                          bbox_override=self.bbox(
-                                                            (list(table['p0']) + list(table['p1']))),
+                                                            (list(table['p0']) + list(table['p1'])),
+                                                            pad=kwargs.get('bbox_pad', 0.05)),
                                                          show=False,
                                                          **kwargs)],
                               ignore_index=True)
-- 
2.43.0


From 8213fe070523eb5b3516082d5f31872542515cf4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 46/61] fix: override_bbox chooses the box that a transition is
 drawn from

---
 atomtoolkit/render/grotrian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 0a5781a..137dd06 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -230,7 +230,7 @@ class Grotrian:
         x1_1 = kwargs.pop('end_x1', 0)
         y1_0 = kwargs.pop('start_y1', 0)
         y1_1 = kwargs.pop('end_y1', 0)
-        bbox_overrides = kwargs.get('override_bbox', (False, False))
+        bbox_overrides = kwargs.pop('override_bbox', (False, False))
 
         def compute_bbox_pos(bbox: Tuple, anchor: int or Tuple, offset: Tuple):
             pos_dict = {1: (1, 0, 0, 1),   2: (.5, 0, .5, 1),   3: (0, 0, 1, 1),
@@ -248,7 +248,8 @@ class Grotrian:
             if type(level) == ZLevel:
                 if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
-                if level.parent in list(self.lines_df['level']) or bbox_override in {'hf', 'hyperfine'}:
+                if level.parent in list(self.lines_df['level']) and bbox_override is False \
+                        or bbox_override in {'hf', 'hyperfine'}:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.parent]['bbox'])[0], a, (x1, y1))
                 if level in list(self.lines_df['level']) and bbox_override is False:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
-- 
2.43.0


From c71efe9dbaa1de4fbdc87fc26a7a3960e7f1466e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 47/61] fix: the frequency axis is labelled with the unit that
 is plotted

---
 atomtoolkit/render/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 6fbc09a..88e3d3e 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -49,7 +49,7 @@ def plot_transitions(transitions: BaseTransition or List[BaseTransition],
             y_values += np.interp(x_values, x, curve)
         plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
     plt.ylim(0, None)
-    plt.xlabel("Frequency (GHz)")
+    plt.xlabel(f"Frequency ({unit})")
     plt.legend()
 
 
-- 
2.43.0


From b1494db7c4ba045c67739337ec27216320dddb63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 48/61] fix: a selection of components gets valid colors

---
 atomtoolkit/render/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 88e3d3e..d2085b6 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -119,6 +119,9 @@ def color_table_from_property(items: List[BaseTransition],
     prop_pairs = list(zip(main_props, secondary_props))
     # a dict that yields the lowest secondary property associated with each main property
     min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
+    # the number of shades, which can be more than the number of items if the secondary properties have gaps
+    num_shades = {p0: max([num_main_props[p0]] + [Fp[1] - min_main_props[p0] + 1 for Fp in prop_pairs if Fp[0] == p0])
+                  for p0 in main_props}
 
     def color_by_properties(t):
         colormap = plt.get_cmap(cmap)
@@ -131,7 +134,7 @@ def color_table_from_property(items: List[BaseTransition],
         # convert it to HLS
         col = colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
         # set the lightness depending on the shade property and convert back to RGB
-        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
+        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_shades[color_prop] + 1)
         col = colorsys.hls_to_rgb(col[0], lightness, col[2])
         return col
 
-- 
2.43.0


From 888de6da5ed2dd61816656c3e6980063a3850d98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 49/61] fix: spectra can be plotted with the default coloring
 and with a function for it

---
 atomtoolkit/render/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d2085b6..4e07fcf 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -15,7 +15,7 @@ from .lineshapes import *
 
 def plot_transitions(transitions: BaseTransition or List[BaseTransition],
                      lineshape: LineShape, **kwargs):
-    if 'color_func' not in kwargs:
+    if kwargs.get('color_func') is None:
         def color_func(t): return 0, 0, 0, 1
     else:
         color_func = kwargs['color_func']
@@ -165,7 +165,9 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
-    if type(lines[0]) == Transition:
+    if isinstance(coloring, Callable):
+        color_func = coloring
+    elif coloring is None or type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
     elif type(lines[0]) == HFTransition:
         if coloring == 'l':
-- 
2.43.0


From 6a9dc5c97e8e9de145dbd5175a9428a0b248efbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 50/61] fix: the Zeeman spectrum of a list of transitions has
 their Zeeman components

---
 atomtoolkit/render/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 4e07fcf..2530767 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -71,7 +71,8 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
     elif isinstance(transitions, Transition):
         lines = list(itertools.chain.from_iterable(list(t.values()) for t in list(transitions.values())))
     elif isinstance(transitions, list):
-        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
+        hf_lines = itertools.chain.from_iterable(t.values() if isinstance(t, Transition) else [t] for t in transitions)
+        lines = list(itertools.chain.from_iterable(t.values() for t in hf_lines))
     else:
         lines = transitions
 
-- 
2.43.0


From ac8a04dee444fc8a98e6c476ef595d5b8a6f7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 51/61] fix: populate_transitions left out transitions between
 levels with J of 20 or more

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 994d223..9bf1dd4 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1048,7 +1048,7 @@ class Atom:
 
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
-        max_to_try = 20
+        max_to_try = 1 + max((int(lvl.term.J or 0) for lvl in self.levels.values()), default=0)
         # since the ordering of the list is potentially E1, M1, E2, M2, etc. the maximum deltas are 1, 1, 2, 2, etc.
         max_delta = max((i // 2 + 1 for i in range(len(allowed)) if allowed[i]), default=-1)
         allowed_deltas = range(max_delta + 1)
-- 
2.43.0


From e04863e6c16c2b818e762303b9752f2483f30c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 52/61] fix: JJ configurations with an outer parent coupled
 from a pair could not be parsed

---
 atomtoolkit/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/util.py b/atomtoolkit/util.py
index 742a66e..528e67f 100644
--- a/atomtoolkit/util.py
+++ b/atomtoolkit/util.py
@@ -207,9 +207,9 @@ def parse_JJ_term(conf: str, term: str) -> Tuple[float, ...]:
      :return: Lc, Sc, Lo, So, Jc, Jo
      """
     # find the following forms: 3D<2>, 7p<3/2>, (8,5/2)*<21/2>, and extract the relevant substrings
-    relevant_parts = re.findall(r'(?:(\d+)([A-Za-z])|\(.+?\))\*?<(.+?)>', conf)
+    relevant_parts = re.findall(r'(?:(\d+)([A-Za-z])|\([^()]+\))\*?<(.+?)>', conf)
     if len(relevant_parts) == 0:  # sometimes the ancestor terms are in the term, not in the config
-        relevant_parts = re.findall(r'(?:(\d+)([A-Za-z])|\(.+?\))\*?<(.+?)>', term)
+        relevant_parts = re.findall(r'(?:(\d+)([A-Za-z])|\([^()]+\))\*?<(.+?)>', term)
     [(scs, lcs, jcs), (sos, los, jos)] = relevant_parts
 
     jc = frac_to_float(jcs)
-- 
2.43.0


From 3405f03733394ddc7ff811725b823d71e17451ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 53/61] fix: Term.from_dataframe gave a whole column of another
 name as the percentage

---
 atomtoolkit/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 8398eea..f11a6b0 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -96,7 +96,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"].iloc[i], df["Term"].iloc[i], df["J"].iloc[i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"].iloc[i], df["Term"].iloc[i], df["J"].iloc[i], percentage=df["Percentage"].iloc[i])
 
 
 class MultiTerm(collections.abc.Sequence):
-- 
2.43.0


From 402baef61d383fa4b72b68c5e355509bcc17e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 54/61] fix: the averaged E2 strength weighs all components
 alike

The weights 3/29, 9/58 and 14/29 made the average over directions depend on the quantization axis; an isotropic
average gives every q the same weight.
---
 atomtoolkit/transition_strengths.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 731bd76..666109c 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -128,13 +128,7 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
 
 @functools.lru_cache(maxsize=None)
 def E2_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
-    tot = 0
-    tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
-    tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
-    tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * (14.0 / 29.0)
-    tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
-    tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
-    return tot
+    return sum([tkq_transition_strength(I, 2, q, J0, F0, M0, J1, F1, M1) for q in [-2, -1, 0, 1, 2]]) / 5.0
 
 
 @functools.lru_cache(maxsize=None)
-- 
2.43.0


From d22f6e0cb4b07d2786f601b6018aa5e8c08272bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 55/61] fix: components of a multi-term were paired with each
 other's terms when the columns of a table were reordered

---
 atomtoolkit/term.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index f11a6b0..b2cd7a0 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -154,9 +154,10 @@ class MultiTerm(collections.abc.Sequence):
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> MultiTerm:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        confs = [c for c in df.columns if 'Configuration' in c]
-        terms = [c for c in df.columns if 'Term' in c]
-        pcts = [c for c in df.columns if 'Percentage' in c]
+        # the columns are sorted so that each component gets its own term and percentage, however they are ordered
+        confs = sorted(c for c in df.columns if 'Configuration' in c)
+        terms = sorted(c for c in df.columns if 'Term' in c)
+        pcts = sorted(c for c in df.columns if 'Percentage' in c)
         term_objs = []
         for j in range(len(confs)):
             if type(df[confs[j]].iloc[i]) == str:
-- 
2.43.0


From 945b2d92d56220c9b32ba4f3240a7402c4a89594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 56/61] fix: rows of a transition table that name a level
 without a term were skipped

---
 atomtoolkit/IO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 8de8268..10f653f 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -188,6 +188,8 @@ def load_transition_data(filename: str, columns: dict = None, **kwargs):
         columns["A"] = columns["A_coeff"]
     df = pd.DataFrame(data={k: df_file[columns[k]] for k in ["conf_l", "term_l", "j_l",
                                                              "conf_u", "term_u", "j_u"]})
+    # levels can lack a term, and a blank cell is read in as NaN
+    df["term_l"], df["term_u"] = df["term_l"].fillna(''), df["term_u"].fillna('')
     if "freq" in columns:
         df["freq"] = df_file[columns["freq"]]
     else:
-- 
2.43.0


From 664176436be10450f264bb4983495bd104c9619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 57/61] fix: levels without a term could not be read from a csv
 file

---
 atomtoolkit/IO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 10f653f..70f8979 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -219,6 +219,9 @@ def load_level_data(filename: str, columns: dict = None, **kwargs):
     df_file = pd.read_csv(filename, **kwargs)
     df_file.rename(str.lower, axis='columns')
     df = pd.DataFrame(data={k: df_file[columns[k]] for k in columns})
+    # levels can lack a term, and a blank cell is read in as NaN
+    for k in [k for k in columns if 'Term' in k]:
+        df[k] = df[k].fillna('')
     try:
         df['Level (cm-1)'] = df['Level (cm-1)'].astype(float)
     except ValueError:
-- 
2.43.0


From fdbca92ba031ae526423fca9e9b4405f44dd3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 58/61] fix: the parity of levels that NIST lists without a
 term was lost

---
 atomtoolkit/IO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 70f8979..c8a4226 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -62,7 +62,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     #       36  (7/2,1)       :    25  (2F*<7/2>).5d.6p.(1P*<1>)
     reg = r'\ *\d+\ +([^\ ]+)\ *.*\ :\ *\d+\ +.+?(?:\ +.+?)?\ *$'
     df_clean.loc[df_clean["Term"] == '', 'Term'] = df_clean['Leading percentages'].str.extract(reg, expand=False)
-    df_clean.loc[df_clean["Term"] == '*', 'Term'] = df_clean['Leading percentages'].str.extract(reg, expand=False)
+    #    if it isn't there either, the '*' is still the parity of the level
+    df_clean.loc[df_clean["Term"] == '*', 'Term'] = \
+        df_clean['Leading percentages'].str.extract(reg, expand=False).fillna('*')
     #    extract the relevant data available in the config leading percentage. Example cases:
     #       81                :    11  (2F*<5/2>).5d2.(1D)            1[7/2]*
     #       35  3[5/2]*       :    30                                 (2F*<7/2>)(3F) 3[3/2]*
-- 
2.43.0


From e2aa7b61e2955565c154e8a6e13f1a55e97cf6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 59/61] fix: levels without a configuration keep it blank when
 read from a csv file

---
 atomtoolkit/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index c8a4226..51392dd 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -221,8 +221,8 @@ def load_level_data(filename: str, columns: dict = None, **kwargs):
     df_file = pd.read_csv(filename, **kwargs)
     df_file.rename(str.lower, axis='columns')
     df = pd.DataFrame(data={k: df_file[columns[k]] for k in columns})
-    # levels can lack a term, and a blank cell is read in as NaN
-    for k in [k for k in columns if 'Term' in k]:
+    # levels can lack a configuration or a term, and a blank cell is read in as NaN
+    for k in [k for k in columns if 'Term' in k or k == 'Configuration']:
         df[k] = df[k].fillna('')
     try:
         df['Level (cm-1)'] = df['Level (cm-1)'].astype(float)
-- 
2.43.0


From 57375193ff30c49d2258bda33b8e0c320141a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 60/61] fix: transitions of levels without a configuration are
 read from a csv file

---
 atomtoolkit/IO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 51392dd..fe14577 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -190,8 +190,9 @@ def load_transition_data(filename: str, columns: dict = None, **kwargs):
         columns["A"] = columns["A_coeff"]
     df = pd.DataFrame(data={k: df_file[columns[k]] for k in ["conf_l", "term_l", "j_l",
                                                              "conf_u", "term_u", "j_u"]})
-    # levels can lack a term, and a blank cell is read in as NaN
-    df["term_l"], df["term_u"] = df["term_l"].fillna(''), df["term_u"].fillna('')
+    # levels can lack a configuration or a term, and a blank cell is read in as NaN
+    for k in ["conf_l", "term_l", "conf_u", "term_u"]:
+        df[k] = df[k].fillna('')
     if "freq" in columns:
         df["freq"] = df_file[columns["freq"]]
     else:
-- 
2.43.0


From 91f978d495a07c3553a3a2952bb7f8e207f35b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 61/61] fix: closing a loop that fits gave a warning when its
 upper level lay at zero

---
 atomtoolkit/atom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9bf1dd4..84c141f 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1193,7 +1193,9 @@ class Atom:
                     e_u.level_Hz = e_l.level_Hz + freq
                 e_u.fixed = e_l.fixed = True
             # the edges that the search didn't need are the ones that close loops, and might not be satisfied
+            # (up to the rounding of the highest of the levels they were reached through)
+            scale = max(abs(node.level_Hz) for _, node in nodes)
             for u, v, t in subgraph.edges(data='transition'):
                 freq = t.set_freq.to(Hz).magnitude
-                if u != v and not np.isclose(t.freq_Hz, freq, rtol=1e-12, atol=1e-12 * abs(t.E_upper.level_Hz)):
+                if u != v and not np.isclose(t.freq_Hz, freq, rtol=1e-12, atol=1e-12 * scale):
                     warnings.warn(f'Constraint problem encountered when checking {(u, v)}. Loop of fixed transitions?')
-- 
2.43.0

