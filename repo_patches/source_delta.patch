From bfb040efe2b55337774e0e79b0aa38ba6785182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 01/61] fix: read two-letter elements as one element

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..35b18c4 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -296,7 +296,7 @@ class ChemFormula(object):
         """
         self.__formula = formula
         self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
-        self.__sp_regex = re.compile(r'([a-zA-Z\*])(\d*)')
+        self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
 
-- 
2.43.0


From 6aff489307bb75b18fd3be97fd8daf77470ff5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 02/61] fix: add up the coefficients of a species that occurs
 twice in a state

---
 scaks/parsers/rxn_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 35b18c4..a33d800 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -173,8 +173,11 @@ class ChemState(object):
         """
         formula_list = self.tolist()
 
-        species_site_dict = {formula.species_site(): formula.stoichiometry()
-                             for formula in formula_list}
+        species_site_dict = {}
+        for formula in formula_list:
+            species_site = formula.species_site()
+            species_site_dict[species_site] = (species_site_dict.get(species_site, 0) +
+                                               formula.stoichiometry())
 
         return species_site_dict
 
-- 
2.43.0


From 884bad79d17f6942d3ca0bb9beb7ec347220c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 03/61] fix: derive the total reaction from the exact null
 space

---
 scaks/parsers/parser_base.py | 37 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 9028a4c..148e3fa 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -3,6 +3,7 @@ import re
 import logging
 
 import numpy as np
+import sympy as sym
 
 from ..descriptors.descriptors import *
 from .. import ModelShell
@@ -188,27 +189,25 @@ class ParserBase(ModelShell):
         # {{{
         site_matrix, reapro_matrix = self.get_stoichiometry_matrices()
 
-        # Helper function to get null space of transposition of site_matrix.
-        def null(A, eps=1e-10):
-            u, s, vh = np.linalg.svd(A, full_matrices=1, compute_uv=1)
-            null_space = np.compress(s <= eps, vh, axis=0)
-            return null_space.T
-
-        x = null(site_matrix.T)  # basis of null space
-        if not x.any():  # x is not empty
+        # Exact basis of the null space of transposition of site_matrix.
+        null_space = sym.Matrix(site_matrix.T.astype(int).tolist()).nullspace()
+        if not null_space:
             raise ValueError('Failed to get basis of nullspace.')
 
-        x = [abs(i) for i in x.T.tolist()[0]]
-        #convert entries of x to integer
-        min_x = min(x)
-        x = [round(i/min_x, 1) for i in x]
-        x = np.matrix(x)
-        total_coefficients = (x*reapro_matrix).tolist()[0]
+        # Follow the direction in which the elementary steps are written.
+        x = null_space[0]
+        if sum(x) < 0:
+            x = -x
+
+        total_coefficients = list(x.T*sym.Matrix(reapro_matrix.astype(int).tolist()))
 
-        # cope with small differences between coeffs
-        abs_total_coefficients = list(map(abs, total_coefficients))
-        min_coeff = min(abs_total_coefficients)
-        total_coefficients = [int(i/min_coeff) for i in total_coefficients]
+        # Convert coefficients to the smallest integers.
+        denominator = sym.ilcm(1, *[c.q for c in total_coefficients])
+        total_coefficients = [int(c*denominator) for c in total_coefficients]
+        divisor = sym.igcd(0, *total_coefficients)
+        if not divisor:
+            raise ValueError('No species is changed by the total reaction.')
+        total_coefficients = [c//divisor for c in total_coefficients]
 
         # create total rxn expression
         reactants_list, products_list = [], []
@@ -223,7 +222,7 @@ class ParserBase(ModelShell):
                 else:
                     coefficient = str(coefficient)
                 products_list.append(coefficient + sp_name)
-            else:  # for reactants
+            elif coefficient > 0:  # for reactants
                 coefficient = int(coefficient)
                 if coefficient == 1:
                     coefficient = ''
-- 
2.43.0


From 72839d9c9df2eaf53856975030f0bf29b76e9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 04/61] fix: count the net production of an adsorbate in its
 coverage derivative

The derivative of an adsorbate's coverage was built from the first
occurrence of the adsorbate in a reaction only, so that species on both
sides of a step, species listed twice in a state and species occurring in
the transition state got a wrong derivative.
---
 scaks/solvers/steady_state_solver.py | 49 +++++++++++++---------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..71393b1 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -104,6 +104,14 @@ class SteadyStateSolver(MeanFieldSolver):
         return constrained_cvgs_tuple
         # }}}
 
+    @staticmethod
+    def __count_species(species_name, formula_list):
+        """
+        Private helper function to count a species in a reaction state.
+        """
+        return sum([formula.stoichiometry() for formula in formula_list
+                    if formula.species_site() == species_name])
+
     def get_elementary_dtheta_dt_expression(self,
                                             adsorbate_name,
                                             rxn_expression):
@@ -133,40 +141,27 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+        # Get net production of the adsorbate in a single forward event.
+        stoichiometry = (self.__count_species(adsorbate_name, elementary_rxn_list[-1]) -
+                         self.__count_species(adsorbate_name, elementary_rxn_list[0]))
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If the reaction doesn't change the adsorbate coverage, stop.
+        if stoichiometry == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = r_expr, f_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [r_expr, f_expr]]
+        if stoichiometry < 0:
+            increase_rate, decrease_rate = r_expr, f_expr
         # Adsorbate is produced.
         else:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = f_expr, r_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [f_expr, r_expr]]
+            increase_rate, decrease_rate = f_expr, r_expr
+
+        if abs(stoichiometry) != 1:
+            increase_rate, decrease_rate = [str(abs(stoichiometry)) + '*' + rate_expr
+                                            for rate_expr in [increase_rate, decrease_rate]]
 
         # Return.
         return increase_rate + ' - ' + decrease_rate
@@ -192,8 +187,8 @@ class SteadyStateSolver(MeanFieldSolver):
             if single_dtheta_dt:
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
-        # Join the expressions.
-        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
+        # Join the expressions, no reaction may change the coverage.
+        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0'
 
         return dtheta_dt_expression
         # }}}
-- 
2.43.0


From 46ab3ba31db5dfb3758d6983b9cb91ff062d2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 05/61] fix: derive every part of a rate expression in the
 analytical Jacobian

A minus sign before a term with several parts was applied to the first part
only, powers were read up to their first digit, and of a species listed
twice in a state only one occurrence was derived.
---
 scaks/solvers/mean_field_solver.py   | 10 ++++++++--
 scaks/solvers/steady_state_solver.py |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..5584544 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -331,9 +331,15 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
+            # A species may occur more than once in a state.
+            species_names = [formula.species_site() for formula in formula_list]
+
+            for idx_sp, formula in enumerate(formula_list):
                 species_name = formula.species_site()
+                if species_name in species_names[:idx_sp]:
+                    continue
+                stoichiometry = sum([same.stoichiometry() for same in formula_list
+                                     if same.species_site() == species_name])
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 71393b1..23dec63 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -260,7 +260,7 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
@@ -367,7 +367,7 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
                 site_part = m.group(1) + '*' + m.group(6)
@@ -422,6 +422,10 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # The operator before a term applies to all parts of its derivation.
+        derived_terms = ['(' + term + ')' if ' + ' in term else term
+                         for term in derived_terms]
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From 2b9b1765cf530dce72672f4b7cbc1829ccbcb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 06/61] fix: let the symbolic path handle liquids and any
 number of adsorbates

The symbolic Jacobian had exactly two rows, and the substitution of liquid
concentrations looked up the list of names instead of the name.
---
 scaks/solvers/mean_field_solver.py   | 2 +-
 scaks/solvers/steady_state_solver.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 5584544..1be2f53 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -995,7 +995,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 23dec63..cbcaa2b 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -623,7 +623,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -653,7 +653,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From b9c6e1456fe1f8f9f68d265cfa6722eb26198884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 07/61] fix: do not share memoized values between models or
 with callers

All models shared one cache whose key did not contain the model, so that a
model got the rate constants of another one with a different temperature or
rate algorithm. Returned lists and the energies passed in were part of the
cache, so that changing them changed later results.
---
 scaks/descriptors/descriptors.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..5ea5a84 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -2,8 +2,10 @@
 Definitions of attribute descriptors.
 """
 
-import numpy as np
 import copy
+from functools import partial
+
+import numpy as np
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -374,27 +376,30 @@ def make_hashable(var):
 
 class Memoized(object):
     """ Descriptor for returned value memoization.
+
+    Every instance remembers its own values only, and neither its arguments nor
+    its values are shared with the caller.
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
+        self.name = "_memoized_{}".format(func.__name__)
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
+        return partial(self._call, instance)
 
-    def __call__(self, **kwargs):
+    def _call(self, instance, **kwargs):
         # Make all arguments hashable.
-        key = make_hashable(kwargs)
+        key = HashableDict(copy.deepcopy(kwargs))
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if not key.get("relative_energies"):
+            key["relative_energies"] = copy.deepcopy(instance._owner.relative_energies)
 
-        try:
-            return self.results[key]
-        except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+        results = instance.__dict__.setdefault(self.name, {})
+        if key not in results:
+            results[key] = self.func(instance, **kwargs)
 
+        return copy.deepcopy(results[key])
-- 
2.43.0


From a5677cf2b1a5884cd506e057596d218f317082fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 08/61] fix: calculate with the precision of the model at hand

The working precision of mpmath is global, so that building a second model
changed the precision of the first one's results.
---
 scaks/solvers/mean_field_solver.py   | 18 +++++++++++++++++-
 scaks/solvers/steady_state_solver.py |  6 ++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 1be2f53..38178a4 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -58,7 +58,7 @@ class MeanFieldSolver(SolverBase):
         """
         # Mpmath.
         if self._owner.numerical_representation == 'mpmath':
-            mp.mp.dps = self._owner.decimal_precision
+            self._set_precision()
             self._math = mp  # to do math operations
             self._linalg = mp
             self._mpf = mp.mpf
@@ -104,6 +104,14 @@ class MeanFieldSolver(SolverBase):
 #            self._norm = lambda x: sym.sqrt((x.transpose()*x)[0])  # x is a column vector
         # }}}
 
+    def _set_precision(self):
+        """
+        Protected function to set the working precision of mpmath, which is
+        shared by all models, to the one of this solver's model.
+        """
+        if self._owner.numerical_representation == 'mpmath':
+            mp.mp.dps = self._owner.decimal_precision
+
     def log_latex(self, latex_tup):
         ''' Append latex strings to 'formulas.tex'
         '''
@@ -167,6 +175,8 @@ class MeanFieldSolver(SolverBase):
     def get_data(self):
         """ Function to get data from model.
         """
+        self._set_precision()
+
         species_definitions = self._owner.species_definitions
 
         # Get gas pressure dict.
@@ -204,6 +214,8 @@ class MeanFieldSolver(SolverBase):
         :rtype: dict
         """
         # {{{
+        self._set_precision()
+
         # Get relative energies.
         if not relative_energies:
             if self._owner.has_relative_energy:
@@ -279,6 +291,8 @@ class MeanFieldSolver(SolverBase):
         :rtype: tuple of float
         """
         # {{{
+        self._set_precision()
+
         free_site_names = self._owner.site_names
         cvg_types = self._owner.adsorbate_names + free_site_names
         kB, h, T = [self._mpf(constant) for constant in
@@ -406,6 +420,8 @@ class MeanFieldSolver(SolverBase):
         :return: Forward rates and reverse rates
         :rtype: tuple of float.
         """
+        self._set_precision()
+
         # Coverages(theta).
         theta = self._cvg_tuple2dict(cvgs_tuple)
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index cbcaa2b..8447592 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -226,6 +226,8 @@ class SteadyStateSolver(MeanFieldSolver):
         :type relative_energies: dict
         """
         # {{{
+        self._set_precision()
+
         # Set theta, kf, kr, p, dtheta_dt
         # Coverages(theta).
         theta = self._cvg_tuple2dict(cvgs_tuple)
@@ -453,6 +455,8 @@ class SteadyStateSolver(MeanFieldSolver):
         :rtype: numpy.matrix
         """
         # {{{
+        self._set_precision()
+
         # Check input parameter.
         dtheta_dt_expressions = self.get_dtheta_dt_expressions()
         m, n = len(dtheta_dt_expressions), len(cvgs_tuple)
@@ -773,6 +777,8 @@ class SteadyStateSolver(MeanFieldSolver):
 
         """
         # {{{
+        self._set_precision()
+
         if c0 is None:
             c0 = self._owner.hybrid_method(self._owner, 0)
         # Intial coverage must have physical meaning.
-- 
2.43.0


From addaa5135a1f240f675443688b6474801a43fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 09/61] fix: require both barrier lists for rate constants

'"Gaf" and "Gar" not in' only looked for the reverse barriers.
---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 38178a4..bc9f2f7 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -225,7 +225,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From 6525e3c1688906937cd2dc3af7c9847dc1b603cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 10/61] fix: include the pressure once per gas molecule in
 event rates

Gases with a coefficient were looked up with the coefficient as part of
their name, and their pressure would have been included once only.
---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..4084545 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            definitions = self._owner.species_definitions
+            f = lambda gas: definitions[gas.species_site()]["pressure"]**gas.stoichiometry()
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From d3c181ce17f9a0f94eb7bb4db29e678398add79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 11/61] fix: correct energies once per gas molecule, and at low
 temperatures

A gas with a coefficient was looked up with the coefficient in its name and
so not corrected by Shomate's equation, and only once by the entropy. Where
the rotational temperature is high the entropy correction failed on its
warning.
---
 scaks/correctors/thermodynamic_corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 7cea5a585d37d2fba27716b656a3bada2174ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 12/61] fix: Boltzmann coverages share the sites of their own
 type

The coverages were normalised over the species of all types of sites and to
one instead of the total of the site type.
---
 scaks/solvers/mean_field_solver.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index bc9f2f7..b2574dd 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -293,8 +293,6 @@ class MeanFieldSolver(SolverBase):
         # {{{
         self._set_precision()
 
-        free_site_names = self._owner.site_names
-        cvg_types = self._owner.adsorbate_names + free_site_names
         kB, h, T = [self._mpf(constant) for constant in
                     [self._owner.kB, self._owner.h, self._owner.temperature]]
 
@@ -304,18 +302,23 @@ class MeanFieldSolver(SolverBase):
         if not self._owner.has_absolute_energy:  # if no absolute again, raise exception
             raise IOError('No absolute energies read, could not get Boltzmann coverages.')
 
-        if include_empty_site:
-            boltz_sum = sum([mp.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))
-                             for adsorbate in cvg_types])
-        else:
-            boltz_sum = sum([self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))
-                             for adsorbate in self._owner.adsorbate_names])
+        def boltz_factor(species_name):
+            return self._math.exp(-self._owner.absolute_energies[species_name]/(kB*T))
+
+        # The species on each type of site share its total coverage.
+        species_definitions = self._owner.species_definitions
+        cvgs_dict = {}
+        for site_name in self._owner.site_names:
+            adsorbates = self._classified_adsorbates[site_name]
+            boltz_sum = sum([boltz_factor(adsorbate) for adsorbate in adsorbates])
+            if include_empty_site:
+                boltz_sum += boltz_factor(site_name)
+            total = self._mpf(species_definitions[site_name]['total'])
+            for adsorbate in adsorbates:
+                cvgs_dict[adsorbate] = total*boltz_factor(adsorbate)/boltz_sum
 
         # Get coverages list
-        cvgs = []
-        for adsorbate in self._owner.adsorbate_names:
-            cvg = self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))/boltz_sum
-            cvgs.append(cvg)
+        cvgs = [cvgs_dict[adsorbate] for adsorbate in self._owner.adsorbate_names]
 
         return tuple(cvgs)
         # }}}
-- 
2.43.0


From 417a56e821be35d886f589d99be1d8d7442bfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 13/61] fix: let the constrained Newton iteration work with
 high-precision numbers

scipy's line search returns a numpy float, which cannot be multiplied with
a matrix of mpmath numbers, and cannot bracket values that are mpmath
numbers: every ConstrainedNewton search failed with a TypeError.
---
 scaks/solvers/rootfinding_iterators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..9983a9a 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,13 +130,13 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
+                return float(norm(fx))
             l = golden(fl)
 #            print l
 #            l = mp.mpf('1.0')
-            x1 = self._matrix(x0) + l*s  # matrix
+            x1 = self._matrix(x0) + self._mpfloat(l)*s  # matrix
             x1 = self.constraint(tuple(x1))
             if x1 == x0:
                 self.logger.info("Solver: Found stationary point.")
-- 
2.43.0


From 48d58d5881807279ab12ec63bd8560cd2fc04c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 14/61] fix: return physical steady states only

A restart guess was not constrained like the first guess is, so that an
unphysical one could be returned as 'good initial guess', and a root with
more adsorbates than sites was accepted.
---
 scaks/solvers/steady_state_solver.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 8447592..033e6c5 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -878,9 +878,15 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Less than tolerance
                     if ((not reach_max_iter) and (error < self._owner.tolerance)):
                         if resid < self._owner.tolerance:
-                            # Check whether there is minus value in x
-                            for cvg in x:
-                                if cvg < 0.0:
+                            # Check whether there is minus value in x,
+                            # or more adsorbates than sites.
+                            cvgs_dict = self._cvg_tuple2dict(x)
+                            for name in cvgs_dict:
+                                if name in self._owner.site_names:
+                                    minimum = -self._owner.tolerance
+                                else:
+                                    minimum = 0.0
+                                if cvgs_dict[name] < minimum:
                                     lt_zero = True  # less than 0
                                     break
                                 else:
@@ -944,6 +950,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -955,6 +962,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in self._owner.analysis:
-- 
2.43.0


From 5ad53738bdec994c578a4d8299d543609db1d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 15/61] fix: report the residual for the energies that were
 asked for

The error of a good initial guess was calculated with the energies of the
model instead of the ones passed in.
---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 033e6c5..fd10168 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -814,7 +814,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = f_resid(c0)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From b737c08bf9fb166e9a22b6cbe6ed474a5e22ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 16/61] fix: try the next guess after a singular Jacobian in
 ConstrainedNewton too

The search catches ZeroDivisionError to continue with a restart guess, but
the iterator turned it into a ValueError that ended the search.
---
 scaks/solvers/rootfinding_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 9983a9a..c40081e 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -126,7 +126,7 @@ class ConstrainedNewton(RootfindingIterator):
                 #print 'ZeroDivisionError!'
                 #cancel = True
                 #break
-                raise ValueError("ZeroDivisionError!")
+                raise
 
             #use golden method to get optimal step size
             def fl(l):
-- 
2.43.0


From bd94332d903b660b6ee0a4e2db262143ab639df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 17/61] fix: finalize an analysis for the attempt it was set up
 for

The counter was already increased when an attempt was followed by another
one, and a good initial guess finalized plugins that were never set up.
---
 scaks/solvers/steady_state_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index fd10168..aad21e0 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -799,6 +799,8 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            attempt = icvg_counter  # the number of this attempt
+            started_analysis = []   # plugins set up for this attempt
             try:
             # {{{
                 # Good initial coverages.
@@ -864,6 +866,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 # Setup analysis plugins
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
+                    started_analysis.append(ap)
 
                 for x, error, fx in newton_iterator:  # inner loop
                     nt_counter += 1
@@ -965,8 +968,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                for ap in started_analysis:
+                    ap.finalize(self._owner, attempt)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 161f878aea96472dfcfc66f0d8286c6c75487555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 18/61] fix: let analysis plugins inherit their methods

Every hook that a subclass of an analysis did not define itself was
replaced by an empty one.
---
 scaks/plugins/metaclasses.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..ddab62a 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -18,6 +18,12 @@ class AnalysisMeta(type):
             if method is not None and not callable(method):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
+            # Keep a method inherited from any class but the interface itself.
+            elif method is None and any(hasattr(base, method_name)
+                                        for base in bases
+                                        if not (isinstance(base, AnalysisMeta) and
+                                                base.__bases__ == (object,))):
+                continue
             # Set default interface methods.
             elif method is None:
                 if method_name == 'setup':
-- 
2.43.0


From 3858f777cdb77820fbb4e2e4c63bb888e2e588df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 19/61] fix: replace the data file in one step

A run that ended while it archived its results left a truncated data file
behind, from which no later run in the directory could start.
---
 scaks/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index bf25d4e..db7a1bf 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -1,3 +1,4 @@
+import os
 import time
 import sys
 
@@ -45,8 +46,11 @@ class ModelShell(object):
             self._archived_data_dict[data_name] = data
             # Dump data dict to data file
             if self._archived_data_dict:
-                with open(self._owner.data_file, 'wb') as f:
+                # Never leave an incomplete data file.
+                temp_file = self._owner.data_file + '.tmp'
+                with open(temp_file, 'wb') as f:
                     pickle.dump(self._archived_data_dict, f)
+                os.replace(temp_file, self._owner.data_file)
 
     @staticmethod
     def write2file(filename, line):
-- 
2.43.0


From 061da90da51df2291355df9a8154aebd2befe5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 20/61] fix: resume from archived coverages, or from the
 model's own guess

A run looked for the archived coverages under a name they are never stored
under and did not check that they belong to as many adsorbates as the model
has; without archived coverages the announced hybrid method was not called
and the run failed.
---
 scaks/models/micro_kinetic_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..45bfa8c 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,9 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if (init_guess in data and
+                    len(data[init_guess]) == len(self.adsorbate_names)):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
@@ -233,6 +234,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From 23158f8a8d7a115280e5d37e74cfcfddaa7fe1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 21/61] fix: let a run with fsolve finish

It never set the coverages and the error that the run asks for afterwards.
---
 scaks/solvers/steady_state_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index aad21e0..d244caf 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -756,7 +756,11 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        converged_cvgs = self.coarse_steady_state_cvgs(c0, relative_energies)
+        self._coverages = tuple(converged_cvgs)
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        return converged_cvgs
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From 3135c33b668db81fa2285fc44c38c554554ab692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 22/61] fix: keep the converged steady state while calculating
 rate control

The steady states for perturbed energies replaced the converged coverages,
their error and the archived results. A perturbed search also took the
unperturbed coverages as steady if their residual was below the tolerance,
so that small perturbations gave the sensitivity at fixed coverages.
---
 scaks/__init__.py                    |  3 ++-
 scaks/solvers/steady_state_solver.py | 29 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index db7a1bf..3a7fc3d 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -30,6 +30,7 @@ class ModelShell(object):
     def __init__(self, owner):
         self._owner = owner
         self._archived_data_dict = {}
+        self._archive_allowed = True
 
     def archive_data(self, data_name, data):
         """
@@ -42,7 +43,7 @@ class ModelShell(object):
         :type data: any
         """
         # Update data dict.
-        if data_name in self._owner.archived_variables:
+        if self._archive_allowed and data_name in self._owner.archived_variables:
             self._archived_data_dict[data_name] = data
             # Dump data dict to data file
             if self._archived_data_dict:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index d244caf..596961d 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1132,6 +1132,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
             # Get steady state coverages.
             steady_cvgs = self.get_steady_state_cvgs(c0=init_guess,
+                                                     single_pt=True,
                                                      relative_energies=relative_energies_copy)
             r_prime = self.get_tof(cvgs=steady_cvgs,
                                    relative_energies=relative_energies_copy,
@@ -1147,18 +1148,28 @@ class SteadyStateSolver(MeanFieldSolver):
 
             return XRCi
 
+        # The perturbed steady states must not replace the converged one.
+        converged_state = {name: getattr(self, name)
+                           for name in ("_coverages", "_error", "_good_guess")
+                           if hasattr(self, name)}
+        self._archive_allowed = False
+
         XRCs = [None]*n_rxns
-        for i in range(n_rxns):
-            if self._owner.log_allowed:
-                self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
+        try:
+            for i in range(n_rxns):
+                if self._owner.log_allowed:
+                    self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
 
-            # Get XRC for that elementary reaction.
-            XRC = get_XRCi(i)
-            XRCs[i] = XRC
+                # Get XRC for that elementary reaction.
+                XRC = get_XRCi(i)
+                XRCs[i] = XRC
 
-            # Ouput log info.
-            if self._owner.log_allowed:
-                self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+                # Ouput log info.
+                if self._owner.log_allowed:
+                    self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+        finally:
+            self.__dict__.update(converged_state)
+            self._archive_allowed = True
 
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
-- 
2.43.0


From e615b3514af414216aace4b650d477e5fb0a85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 23/61] fix: do not share mutable default values between models

An analysis registered for one model was registered for every model that
used the default, because all of them held the same list.
---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 5ea5a84..fa48eb1 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -32,7 +32,8 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            # The default value belongs to no instance.
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From fd39b89380513330e82937cf291a7d58c80a813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 24/61] fix: a parameter keeps the value that was set

A list or dictionary given to a model stayed the caller's: changing it
afterwards, for example to set up the next model, changed the model.
---
 scaks/descriptors/descriptors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index fa48eb1..a62b032 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -49,7 +49,9 @@ class AttrDescriptor(object):
         # Data assignment.
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = value
+            # The caller may go on using (and changing) the value.
+            copy_value = copy.deepcopy if self.deepcopy else copy.copy
+            instance.__dict__[private_name] = copy_value(value)
         else:
             msg ="Changing value of {}.{} is not allowed".format(instance.__class__.__name__,
                                                                  self.name)
-- 
2.43.0


From ce3cfb3524132eb94f49b0286cee2d8395ed21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 25/61] fix: let the component setters of a model check and set
 their component

set_plotter failed with a NameError, and a second definition of
set_corrector accepted anything.
---
 scaks/models/kinetic_model.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..690e266 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -14,6 +14,7 @@ from ..functions import *
 from ..utilities.profiling_utitlities import do_cprofile
 from ..solvers.solver_base import SolverBase
 from ..correctors.corrector_base import CorrectorBase
+from ..plotters.plotter_base import PlotterBase
 
 
 class KineticModel(object):
@@ -404,15 +405,10 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
-
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
+        if isinstance(plotter, PlotterBase):
+            setattr(self, mangled_name(self, 'plotter'), plotter)
+        else:
+            raise TypeError('Invalid model plotter')
 
     @Property
     def log_allowed(self):
-- 
2.43.0


From c5340d7de1be8ded361388ae54fda8bbac500826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 26/61] fix: create shared directories before the processes go
 on

Both barriers came before the master created the directory, so that another
process could open its log or data file in a directory that did not exist,
and whether the second one was reached at all depended on the directory.
---
 scaks/models/kinetic_model.py       | 3 ++-
 scaks/models/micro_kinetic_model.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index 690e266..891fc33 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -194,9 +194,10 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
-                mpi.barrier()
                 if not os.path.exists("./log") and mpi.is_master:
                     os.mkdir("./log")
+                # Wait until the directory is there.
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 45bfa8c..3f25ca6 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,11 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
-            if mpi.is_master:
+        if mpi.size != 1:
+            if mpi.is_master and not os.path.exists("./data"):
                 os.mkdir("./data")
+            # Wait until the directory is there.
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From 47a0945b9cf05dfd68dfb3e03e64a83d9b9e935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 27/61] fix: split sequences over any number of processes

Elements were lost when the length is not a multiple of the number of
processes, and shorter sequences failed with a division by zero.
---
 scaks/mpicommons.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..6b7790f 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,10 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        part_size, residual = divmod(len(sequence), self.size)
+        # The first parts take over the residual.
+        start = self.rank*part_size + min(self.rank, residual)
+        end = start + part_size + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From f8d30427b5a92c9e3e9f322542eca9f06d6ebbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 28/61] fix: hand out a copy of the parser's species
 definitions

The comment promised a deep copy, but the definitions of the model itself
were returned and could be changed.
---
 scaks/parsers/parser_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 148e3fa..1c06a9f 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -394,5 +394,5 @@ class ParserBase(ModelShell):
         """ Query function for parser's species definitions.
         """
         # Use deep copy to avoid modification of the model's attribution.
-        return self.__species_definitions
+        return copy.deepcopy(self.__species_definitions)
 
-- 
2.43.0


From 24815703052274432ccdd27729827df18dafefa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 29/61] fix: hand out a copy of the coverage derivative
 expressions

Changing the returned list changed the expressions the solver goes on to use.
---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 596961d..d145843 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -201,7 +201,7 @@ class SteadyStateSolver(MeanFieldSolver):
         """
         # {{{
         try:
-            return self.__dtheta_dt_expressions
+            return list(self.__dtheta_dt_expressions)
         except AttributeError:
             dtheta_dt_expressions = []
             for idx, adsorbate_name in enumerate(self._owner.adsorbate_names):
@@ -211,7 +211,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
             self.__dtheta_dt_expressions = dtheta_dt_expressions
 
-            return dtheta_dt_expressions
+            return list(dtheta_dt_expressions)
         # }}}
 
     def steady_state_function(self, cvgs_tuple, relative_energies=None):
-- 
2.43.0


From 2bd0d48a759228aaf1977f4b864060adf38f09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 30/61] fix: calculate transition state rates with the
 precision of the model

A direct call used the precision of whichever model was evaluated last.
---
 scaks/solvers/solver_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 4084545..4453965 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -33,6 +33,7 @@ class SolverBase(ModelShell):
         :type T: float
         """
         if self.__class__.__name__ == "SteadyStateSolver":
+            self._set_precision()
             # Convert float numbers to mpfloat.
             kB_eV_mp = self._mpf(kB_eV)
             T_mp = self._mpf(T)
-- 
2.43.0


From ec9ad8664962dad52cbf489076c62e82db73ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 31/61] fix: stop an ODE integration that does not get any
 further

---
 scaks/solvers/steady_state_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index d145843..75c4b8e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1319,7 +1319,11 @@ class SteadyStateSolver(MeanFieldSolver):
                 output_allowed = (nstep % self._owner.ode_output_interval == 0)
 
                 # Integrate.
+                t_last = r.t
                 r.integrate(r.t + t_step)
+                if not r.t > t_last:
+                    msg = "ODE integration does not get any further than t = {}".format(t_last)
+                    raise RuntimeError(msg)
                 if traj_output and output_allowed:
                     ts.append(r.t)
                     ys.append(r.y.tolist())
-- 
2.43.0


From 2484e90d572d051f08ca1668046d22abf2007c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 32/61] fix: set out from physical coverages for the next guess

---
 scaks/solvers/steady_state_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 75c4b8e..bfb8308 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -956,6 +956,8 @@ class SteadyStateSolver(MeanFieldSolver):
                         self.__logger.warning(msg)
                         break
                     else:
+                        # The next guess sets out from coverages with physical meaning.
+                        self._coverages = constraint(self.coverages)
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                         c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
@@ -968,6 +970,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.warning(msg)
                     break
                 else:
+                    # The next guess sets out from coverages with physical meaning.
+                    self._coverages = constraint(self.coverages)
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
-- 
2.43.0


From fb8016ede58cbc0f307f835df2fbb6897fbb26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 33/61] fix: let coverages reach the total of their site type

---
 scaks/solvers/steady_state_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index bfb8308..23275a2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -34,7 +34,7 @@ class SteadyStateSolver(MeanFieldSolver):
     def __constrain_coverages(self, cvgs_tuple):
         """
         Private function to constrain coverages of absorbates
-        between 0.0 and 1.0 or total number.
+        between 0.0 and total number.
         """
         # {{{
         species_definitions = self._owner.species_definitions
@@ -44,10 +44,8 @@ class SteadyStateSolver(MeanFieldSolver):
         # Convert tuple to dict
         cvgs_dict = self._cvg_tuple2dict(cvgs_tuple)
 
-        # Enforce explicit maxima, cannot be larger than 1.0, smaller than 0.0
+        # Enforce explicit minima, cannot be smaller than 0.0
         for adsorbate_name in adsorbate_names:
-            if cvgs_dict[adsorbate_name] > 1.0:
-                cvgs_dict[adsorbate_name] = self._mpf('1.0')
             if cvgs_dict[adsorbate_name] < 0.0:
                 cvgs_dict[adsorbate_name] = self._mpf('0.0')
 
-- 
2.43.0


From fd5eda7712e0e71aed5def828659849c97bf2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 34/61] fix: let every coordinates group own its lists

Two groups made from the same list of coordinates shared it: appending to
one added a position without a label to the other.
---
 scaks/utilities/coordinate_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..57c1388 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -23,12 +23,12 @@ class CoordsGroup(object):
         if coordinates is None:
             self.__coords = []
         else:
-            self.__coords = coordinates
+            self.__coords = list(coordinates)
 
         if elements is None:
             self.__elements = ["V"]*len(self.__coords)
         else:
-            self.__elements = elements
+            self.__elements = list(elements)
 
         # Check.
         if len(self.__coords) != len(self.__elements):
-- 
2.43.0


From c040720c6c815a08c7be7198a89b1bb9c06a0416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 35/61] fix: refuse malformed positions and labels without
 effect

A refused label left its position in the group, a refused position those
before it, and positions without a label were dropped silently.
---
 scaks/utilities/coordinate_utilities.py | 26 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 57c1388..02160ff 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -59,17 +59,16 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check both before anything is appended.
         self.__check_coordinate(coordinate)
-        self.__coords.append(coordinate)
 
-        # Append elements.
         if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+            element = "V"
+        elif type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        self.__coords.append(coordinate)
+        self.__elements.append(element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
@@ -83,8 +82,17 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            raise ValueError(msg.format(len(coordinates), len(elements)))
+
+        # Nothing is added if one of the new coordinates is not valid.
+        new_group = CoordsGroup()
         for coordinate, element in zip(coordinates, elements):
-            self.append(coordinate, element)
+            new_group.append(coordinate, element)
+
+        self.__coords.extend(new_group.coordinates())
+        self.__elements.extend(new_group.elements())
 
     def move(self, move_vector=None):
         """ Function to move all coordinates.
-- 
2.43.0


From cba01bad5cea5e87bca67c3d77879e19d497742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 36/61] fix: refuse move vectors that are not lists of three
 numbers

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 02160ff..d836385 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -107,7 +107,7 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if type(move_vector) is not list or len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-- 
2.43.0


From 4f78ca43fbae1ecbad66266c4aa4f280563952b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 37/61] fix: let an empty coordinates group be moved

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index d836385..27b2cb6 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -111,7 +111,7 @@ class CoordsGroup(object):
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From 503626930c5b9ee0d6edd663f354f4fa90866f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 38/61] fix: write strings as Python literals

A quote or backslash in a string gave text that does not execute or reads
back as something else, and string values lost their quotes.
---
 scaks/utilities/format_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/utilities/format_utilities.py b/scaks/utilities/format_utilities.py
index e12adc0..100d084 100644
--- a/scaks/utilities/format_utilities.py
+++ b/scaks/utilities/format_utilities.py
@@ -36,9 +36,9 @@ def get_list_string(var_name, list_obj, ncols=5):
         if idx % ncols == 0:
             data += ('\n' + indent)
 
-        # add single quotes for string
+        # add quotes for string
         if isinstance(elem, str):
-            data += ("'" + elem + "', ")
+            data += (repr(elem) + ', ')
         else:
             data += (str(elem) + ', ')
     end = '\n]\n\n'
@@ -60,7 +60,8 @@ def get_dict_string(var_name, dict_obj):
     data = ""
     for key in sorted(dict_obj):
         value = dict_obj[key]
-        data += "    '{}': {},\n".format(key, value)
+        value_str = repr(value) if isinstance(value, str) else str(value)
+        data += "    {}: {},\n".format(repr(str(key)), value_str)
     end = "}\n\n"
 
     content = begin + data + end
-- 
2.43.0


From 22fb474d2a26c52a2e29d6696b7042606bea362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 39/61] fix: refuse formulas with unbalanced brackets

The last character of an unclosed bracket was dropped from the mass.
---
 scaks/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/functions.py b/scaks/functions.py
index 7c2d4d3..9b0ac3b 100644
--- a/scaks/functions.py
+++ b/scaks/functions.py
@@ -30,6 +30,8 @@ def string2symbols(s):  # HACKED# copy-pasted from ase\atoms.py
                 p -= 1
                 if p == 0:
                     break
+        if p != 0:
+            raise ValueError("Unbalanced brackets in '{}'.".format(s))
         j = i + 1
         while j < n and s[j].isdigit():
             j += 1
-- 
2.43.0


From aeea4868cddb1693dc21d06c0919128bd356d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 40/61] fix: name no reverse event for a process that only
 redistributes

The names of all later events were shifted by one.
---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..c121a15 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not redist and not fast:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From afb49d0317fec9ae30c9cbd026b12654969e0c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 41/61] fix: do not name the events again when the processes
 are asked for again

---
 scaks/solvers/kmc_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index c121a15..755b9ef 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,8 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        # The mapping belongs to the processes generated below.
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From f6bf332b7a00053e64bc45a5d68743124c037897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 42/61] fix: name the events whether or not they have been
 asked for before

---
 scaks/solvers/kmc_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 755b9ef..463fc1f 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -405,5 +405,7 @@ class KMCSolver(SolverBase):
         """
         Query function for process reaction type mapping.
         """
+        # The mapping is filled when the processes are generated.
+        self.processes
         return self.__process_mapping
 
-- 
2.43.0


From 0df7c8d63045b41d421bbf4a2ebc3311e6047976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 43/61] fix: quote the species in the coverages file once

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 9a0a00d9812d75aabd207aa0ce2163d7f9a21dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 44/61] fix: write no empty block at the end of the coverages
 file

If the buffer had just been written out, the file ended with a block that
indexes an empty list and could not be executed.
---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..98964ee 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -137,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if self.__times:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 9acd201297a33b4fc7f5bb6358f3693cc1fbfa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 45/61] fix: write the frequencies of a run without steady time

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..d4db77b 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -53,7 +53,7 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
             self.__logger = logging.getLogger("model.solvers.KMCSolver.FrequencyAnalysis")
 
         # TOF start step.
-        self.__tof_start_time = 0.0
+        self.__tof_start_time = None
         self.__tof_end_time = 0.0
 
         # Name of data file.
@@ -78,7 +78,7 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         if step >= self.__kmc_model.tof_start:
             self.__steady_process_occurencies[picked_index] += 1
 
-            if not self.__tof_start_time:
+            if self.__tof_start_time is None:
                 self.__tof_start_time = time
                 if mpi.is_master:
                     self.__logger.info("TOF analysis start at time = {:e}".format(time))
@@ -121,12 +121,15 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         basis_sites = self.__kmc_model.basis_sites
         nsites = reduce(mul, repetitions)*len(basis_sites)
 
-        delta_t = self.__tof_end_time - self.__tof_start_time
+        if self.__tof_start_time is None:
+            delta_t = 0.0
+        else:
+            delta_t = self.__tof_end_time - self.__tof_start_time
 
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From 7e026acf729096c78da86b255bfd75fefce50686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 46/61] fix: start the frequency file in the master process
 only

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index d4db77b..28836ba 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
-- 
2.43.0


From ec08f0ee23cb21a30297590028b1a7e998281ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 47/61] fix: start the TOF file in the master process only

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..6b20b9d 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -78,9 +78,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From 05e91d911a9c7fbfe9a5dc0a4f1283ae0bf68a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 48/61] fix: start the first TOF interval at the start time of
 the run

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index 6b20b9d..cca1e05 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first interval starts with the run.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From e45952f9b49cb35118af336ec276519643adf42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 49/61] fix: analyse events when no process is available

---
 scaks/solvers/kmc_plugins/event_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/event_analysis.py b/scaks/solvers/kmc_plugins/event_analysis.py
index d748107..cea454a 100644
--- a/scaks/solvers/kmc_plugins/event_analysis.py
+++ b/scaks/solvers/kmc_plugins/event_analysis.py
@@ -156,7 +156,9 @@ class EventAnalysis(KMCAnalysisPlugin):
 
         # Get probability table.
         total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
-        probabilities = [r/sum(total_rates) for r in total_rates]
+        sum_rates = sum(total_rates)
+        probabilities = [r/sum_rates if sum_rates > 0.0 else 0.0
+                         for r in total_rates]
 
         table = []
         for i, (rxn, n, r, p) in enumerate(zip(reactions,
-- 
2.43.0


From 02553342388488df99bac43922bd94d5e72434b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 50/61] fix: refer enthalpies to the parameters valid at the
 reference temperature

---
 scaks/correctors/thermodynamic_corrector.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index efb9683..d5cbae6 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -77,6 +77,14 @@ class ThermodynamicCorrector(CorrectorBase):
             Cp = A + B*t + C*t**2 + D*t**3 + E/(t**2)
             return Cp
 
+        def get_params_ref(default):
+            for key in shomate_params.keys():
+                gas_key, T_range = key.split(':')
+                T_min, T_max = [float(t) for t in T_range.split('-')]
+                if gas_key == gas_name and T_min <= temperature_ref <= T_max:
+                    return shomate_params[key]
+            return default
+
         not_there = True
         for key in shomate_params.keys():
             gas_key, T_range = key.split(':')
@@ -91,10 +99,12 @@ class ThermodynamicCorrector(CorrectorBase):
 
             if temperature >= T_min and temperature <= T_max:
                 params = shomate_params[key]
-                Cp_ref = Cp(temperature_ref, params)
+                # The reference state is described by the parameters valid there.
+                params_ref = get_params_ref(params)
+                Cp_ref = Cp(temperature_ref, params_ref)
 
                 # deltaH(298-T) = shomate(T) - shomate(298)
-                dH = H(temperature, params) - H(temperature_ref, params)
+                dH = H(temperature, params) - H(temperature_ref, params_ref)
                 dS = S(temperature, params)
 
                 # dH = 298*Cp(298) + dH(298-T)
-- 
2.43.0


From 294e70d654b52b64f3d2b3325889ed72cf4652ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 51/61] fix: know the elements of all gases in the
 thermochemical tables

---
 scaks/database/elements_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/database/elements_data.py b/scaks/database/elements_data.py
index 664a446..326fa2d 100644
--- a/scaks/database/elements_data.py
+++ b/scaks/database/elements_data.py
@@ -12,3 +12,6 @@ chem_elements['F'] = dict(index=9, mass=18.9984032)
 chem_elements['Ne'] = dict(index=10, mass=20.1797)
 chem_elements['S'] = dict(index=16, mass=32.065)
 chem_elements['Cl'] = dict(index=17, mass=35.453)
+chem_elements['D'] = dict(index=1, mass=2.01410178)
+chem_elements['Br'] = dict(index=35, mass=79.904)
+chem_elements['I'] = dict(index=53, mass=126.90447)
-- 
2.43.0


From c7b14caac80a1fd1fbb190f5c35b7e2e4deca43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 52/61] fix: integrate to an end time of zero

---
 scaks/solvers/steady_state_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 23275a2..a3a7374 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1334,7 +1334,8 @@ class SteadyStateSolver(MeanFieldSolver):
                 if (self._owner.log_allowed and
                         nstep % self._owner.ode_output_interval == 0):
                     msg = "{:10.2f}%{:20f}" + "{:20.8e}"*nads
-                    msg = msg.format(r.t/t_end*100, r.t, *r.y)
+                    process = (r.t - t_start)/(t_end - t_start)*100
+                    msg = msg.format(process, r.t, *r.y)
                     self.__logger.info(msg)
 
                 # Flush time coverages to file.
-- 
2.43.0


From 7088e259a814f5699750d88a267ab0dffb0f8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 53/61] fix: correcting the energies removed the barrier of
 surface steps without transition state

---
 scaks/correctors/thermodynamic_corrector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index d5cbae6..dc491d8 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -313,6 +313,10 @@ class ThermodynamicCorrector(CorrectorBase):
                 delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
+        # A step that nothing is corrected in keeps its energies.
+        if not any(deltas):
+            return
+
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
 
     def __change_relative_energies(self, relative_energies, rxn_idx, deltas):
-- 
2.43.0


From 7a3bc6d831536da7b501384ad5013a392834d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 54/61] fix: in the tables of the log a long name ran into its
 value

---
 scaks/solvers/mean_field_solver.py   |  8 ++++----
 scaks/solvers/steady_state_solver.py | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index b2574dd..483474a 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -512,7 +512,7 @@ class MeanFieldSolver(SolverBase):
         """
         Private helper function to log reversibilities info.
         """
-        head_str = "\n {:<10s}{:<70s}{:<30s}\n".format("index",
+        head_str = "\n {:<10s}{:<70s} {:<30s}\n".format("index",
                                                        "elementary reaction",
                                                        "reversibilities")
         head_str = "Reversibilities:\n" + head_str
@@ -525,7 +525,7 @@ class MeanFieldSolver(SolverBase):
 
         for idx, (rxn, rev) in enumerate(zip(rxn_expressions, reversibilities)):
             idx = str(idx).zfill(2)
-            data = " {:<10s}{:<70s}{:<30.16e}\n".format(idx, rxn, float(rev))
+            data = " {:<10s}{:<70s} {:<30.16e}\n".format(idx, rxn, float(rev))
             all_data += data
         all_data += line_str
 
@@ -584,7 +584,7 @@ class MeanFieldSolver(SolverBase):
         """
         Private helper function to log TOF of every gas species.
         """
-        head_str = "\n {:<10s}{:<25s}{:<30s}\n".format("index", "gas name", "TOF")
+        head_str = "\n {:<10s}{:<25s} {:<30s}\n".format("index", "gas name", "TOF")
         head_str = "Turnover Frequencies:\n" + head_str
         line_str = '-'*60 + '\n'
 
@@ -592,7 +592,7 @@ class MeanFieldSolver(SolverBase):
         all_data += head_str + line_str
         for idx, (gas_name, tof) in enumerate(zip(gas_names, tof_list)):
             idx = str(idx).zfill(2)
-            data = " {:<10s}{:<25s}{:<30.16e}\n".format(idx, gas_name, float(tof))
+            data = " {:<10s}{:<25s} {:<30.16e}\n".format(idx, gas_name, float(tof))
             all_data += data
         all_data += line_str
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index a3a7374..c5f101a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -996,7 +996,7 @@ class SteadyStateSolver(MeanFieldSolver):
         Private helper function to log steady state coverage of every species.
         """
         # {{{
-        head_str = "\n {:<10s}{:<25s}{:<30s}\n".format("index",
+        head_str = "\n {:<10s}{:<25s} {:<30s}\n".format("index",
                                                        "intermediate name",
                                                        "steady state coverage")
         head_str = "Steady State Coverages:\n" + head_str
@@ -1006,7 +1006,7 @@ class SteadyStateSolver(MeanFieldSolver):
         all_data += head_str + line_str
         for idx, (ads_name, cvg) in enumerate(zip(ads_names, cvgs_tuple)):
             idx = str(idx).zfill(2)
-            data = " {:<10s}{:<25s}{:<30.16e}\n".format(idx, ads_name, float(cvg))
+            data = " {:<10s}{:<25s} {:<30.16e}\n".format(idx, ads_name, float(cvg))
             all_data += data
         all_data += line_str
 
@@ -1021,7 +1021,7 @@ class SteadyStateSolver(MeanFieldSolver):
         Private helper function to log XTRC for a gas species.
         """
         # {{{
-        head_str = "\n {:<10s}{:<25s}{:<30s}\n".format("index", "intermediate", "XTRC")
+        head_str = "\n {:<10s}{:<25s} {:<30s}\n".format("index", "intermediate", "XTRC")
         head_str = "Degree of Rate Control for {}:\n".format(gas_name) + head_str
         line_str = '-'*60 + '\n'
 
@@ -1032,7 +1032,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         for idx, (intermediate, XTRC) in enumerate(zip(intermediates, XTRCs)):
             idx = str(idx).zfill(2)
-            data = " {:<10s}{:<25s}{:<30.16e}\n".format(idx, intermediate, float(XTRC))
+            data = " {:<10s}{:<25s} {:<30.16e}\n".format(idx, intermediate, float(XTRC))
             all_data += data
         all_data += line_str
 
@@ -1051,7 +1051,7 @@ class SteadyStateSolver(MeanFieldSolver):
         intermediate_names = (self._owner.adsorbate_names +
                               self._owner.transition_state_names)
 
-        head_str = "\n{:<15s}{:<30s}{:<30s}\n".format("gas", "intermediate", "XTRC")
+        head_str = "\n{:<15s} {:<30s} {:<30s}\n".format("gas", "intermediate", "XTRC")
         head_str = "Degree of Thermodynamic Rate Control:\n" + head_str
         line_str = "-"*70 + "\n"
 
@@ -1060,7 +1060,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         for gas_name, XTRC_vect in zip(gas_names, XTRC_matrix):
             for intermediate, XTRC in zip(intermediate_names, XTRC_vect):
-                data = "{:<15s}{:<30s}{:<30.16e}\n".format(gas_name, intermediate, float(XTRC))
+                data = "{:<15s} {:<30s} {:<30.16e}\n".format(gas_name, intermediate, float(XTRC))
                 all_data += data
 
         all_data += line_str
@@ -1184,7 +1184,7 @@ class SteadyStateSolver(MeanFieldSolver):
         Private helper function to log XRC for a gas species.
         """
         # {{{
-        head_str = "\n {:<10s}{:<70s}{:<30s}\n".format("index", "elementary reaction", "XRC")
+        head_str = "\n {:<10s}{:<70s} {:<30s}\n".format("index", "elementary reaction", "XRC")
         head_str = "Degree of Rate Control for {}:\n".format(gas_name) + head_str
         line_str = '-'*100 + '\n'
 
@@ -1194,7 +1194,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         for idx, (rxn_expression, XRC) in enumerate(zip(rxn_expressions, XRCs)):
             idx = str(idx).zfill(2)
-            data = " {:<10s}{:<70s}{:<30.16e}\n".format(idx, rxn_expression, float(XRC))
+            data = " {:<10s}{:<70s} {:<30.16e}\n".format(idx, rxn_expression, float(XRC))
             all_data += data
         all_data += line_str
 
-- 
2.43.0


From 4215aca1937c049c83331a51b5938856ab1c4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 55/61] fix: rate constants calculated before were not logged
 when asked for

---
 scaks/solvers/mean_field_solver.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 483474a..2e4f139 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -193,7 +193,6 @@ class MeanFieldSolver(SolverBase):
             c_dict.setdefault(liquid_name, self._mpf(concentration))
         self._c = c_dict
 
-    @Memoized
     def get_rate_constants(self, relative_energies=None, log=False):
         """ Function to get rate constants for all elementary reactions
         using Transition State Theory.
@@ -213,6 +212,18 @@ class MeanFieldSolver(SolverBase):
         :return: The relative energies for all elementary reactions.
         :rtype: dict
         """
+        # The log is not part of what is remembered.
+        kfs, krs = self._get_rate_constants(relative_energies=relative_energies)
+
+        if self._owner.log_allowed and log:
+            self.__log_rates(kfs, krs, "k_forward", "k_reverse")
+
+        return kfs, krs
+
+    @Memoized
+    def _get_rate_constants(self, relative_energies=None):
+        """ Calculate the rate constants for all elementary reactions.
+        """
         # {{{
         self._set_precision()
 
@@ -243,9 +254,6 @@ class MeanFieldSolver(SolverBase):
             kfs.append(kf)
             krs.append(kr)
 
-        if self._owner.log_allowed and log:
-            self.__log_rates(kfs, krs, "k_forward", "k_reverse")
-
         return kfs, krs
         # }}}
 
-- 
2.43.0


From c48c5a40a7c4d0512e2635ad5bbd41d5735f97a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 56/61] fix: the typeset coverage derivatives could not be
 written, and had a brace too many

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index c5f101a..ba12199 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -588,12 +588,12 @@ class SteadyStateSolver(MeanFieldSolver):
         dtheta_dt_syms = tuple(dtheta_dt_syms)
 
         # Latex strings.
-        dtheta_dt_latexs = self.get_latex_strs(part1=r'\frac{d\theta_{', part2=r'}}{dt}} ',
+        dtheta_dt_latexs = self.get_latex_strs(part1=r'\frac{d\theta_{', part2=r'}}{dt} ',
                                                symbols=dtheta_dt_syms)
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
-- 
2.43.0


From 5161c7e23481c5d00eeac713b5da6aaff20bff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 57/61] fix: energy profiles could not be drawn for barrierless
 endothermic steps, and steps whose barrier does not agree with the number of
 states

---
 scaks/plotters/energy_profile_plotter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index 849ba67..d8fde1c 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -59,9 +59,15 @@ class EnergyProfilePlotter(PlotterBase):
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
                                                 self._owner.relative_energies['dG'])):
-            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
+            # A step without barrier in either direction has no peak.
+            energies = [0.0, dG] if min(Ga, Ga - dG) < 1e-5 else [0.0, Ga, dG]
+            # The line takes the reaction only if it has as many states.
+            if len(RxnEquation(rxn).tolist()) == len(energies):
+                rxn_equation = rxn
+            else:
+                rxn_equation = None
             canvas = EPCanvas()
-            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn, **kwargs))
+            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn_equation, **kwargs))
             canvas.draw()
             image_name = 'energy_profile/{}_{}.png'.format(idx, rxn)
             canvas.figure.savefig(image_name)
-- 
2.43.0


From 1eb639fbd56670c08ec066e1fcd55ba6f1baf4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 58/61] fix: the random number generator RANLUX48 was refused

---
 scaks/models/kmc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kmc_model.py b/scaks/models/kmc_model.py
index 5896085..19d7e66 100644
--- a/scaks/models/kmc_model.py
+++ b/scaks/models/kmc_model.py
@@ -45,7 +45,7 @@ class KMCModel(KineticModel):
     # Random generator type.
     random_generator = String("random_generator",
                                  default="MT",
-                                 candidates=["MT", "MINSTD", "RANLUX24", "RANLUNX48"])
+                                 candidates=["MT", "MINSTD", "RANLUX24", "RANLUX48"])
 
     # kMC On-the-fly analysis type.
     analysis = Sequence("analysis",
-- 
2.43.0


From 4f4e46bf8ea7405833fb10b7c1af2624884db82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 59/61] fix: further processes wrote warnings to the console
 although only errors were asked for

---
 scaks/models/micro_kinetic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 3f25ca6..4695df3 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -142,7 +142,8 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self)._set_logger(filename)
         # if not master processor, no INFO to console.
         if not mpi.is_master:
-            self.set_logger_level("StreamHandler", logging.WARNING)
+            level = max(self.console_handler_level, logging.WARNING)
+            self.set_logger_level("StreamHandler", level)
 
     def run(self, **kwargs):
         """
-- 
2.43.0


From fd50d49effdf76e27ea4ecd901a237bd78f502af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 60/61] fix: a step without forward rate ended the run with a
 division by zero

---
 scaks/solvers/mean_field_solver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 2e4f139..1a71fd0 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -506,7 +506,14 @@ class MeanFieldSolver(SolverBase):
         if len(rfs) != len(rrs):
             raise ValueError('Different rates number is detected.')
 
-        reversibilities = [float(rr/rf) for rf, rr in zip(rfs, rrs)]
+        # A step without forward rate (e.g. adsorption of a gas without
+        # pressure) has no finite reversibility.
+        reversibilities = []
+        for rf, rr in zip(rfs, rrs):
+            if rf != 0.0:
+                reversibilities.append(float(rr/rf))
+            else:
+                reversibilities.append(float('inf') if rr != 0.0 else float('nan'))
 
         # Ouput log info.
         self.__log_reversibilities(reversibilities)
-- 
2.43.0


From fb536edfca816abd780b2c696d15eff3d0b78ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 61/61] fix: the good initial coverages of the solver could not
 be queried

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index ba12199..ba4c1e4 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1416,4 +1416,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0

