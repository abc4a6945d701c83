From 1c593127ce5e60912ddecf4b5fcff55d15abaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 01/40] fix: Expectation of a derivative/integral keeps every
 differentiation variable

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 4f1e89828b1d70d33ec89b4ed40cc42f01b09911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 02/40] fix: canonical derivative order in the PKF internal
 closures (coordinates not in alphabetical order)

---
 src/sympkf/symbolic/pkfcas.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..5c4a022 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -904,14 +904,15 @@ class UnivariateTerm(object):
 
 
 def gamma_def(epsilon, k, i, j):    
-    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j))
+    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j).doit())
 
 def gamma_subs(metric, k, i, j):
     return Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    # .doit(): canonical order of the derivatives (as the one met in the systems)
+    return Expectation(epsilon * Derivative(epsilon, k, i, j).doit())
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1006,7 +1007,7 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]).doit())
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1247,7 +1248,7 @@ class UnivariateTree(object):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
                     term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
-                    term = Expectation(term)
+                    term = Expectation(term.doit())
 
                     lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
                     rhs = lhs.doit()
-- 
2.43.0


From 9aadb80b4559433cd8bd80e839bd88f574913bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 03/40] fix: the diffusion form includes the cross-covariance
 dynamics

---
 src/sympkf/symbolic/pkfcas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 5c4a022..1c650c0 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,11 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            for system in [self.expectation_system, self.variance_system, self.cross_covariance_system]:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From 439a9596c901d199c3c3e2df8d884913550fa793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 04/40] fix: integrals with random bounds are random and do not
 commute with the expectation

---
 src/sympkf/symbolic/random.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..d62d380 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -105,6 +105,9 @@ class Expectation(Function):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
+            if any(israndom(bound) for limit in arg.args[1:] for bound in limit[1:]):
+                # No commutation when the domain of integration is random
+                return cls(arg, evaluate=False)
             return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
@@ -205,9 +208,13 @@ def israndom(arg, verbose=False):
     elif isinstance(arg, Symbol):
         lprint('israndom: Symbol')
         return arg == omega
-    elif isinstance(arg, (Derivative, Integral)):
+    elif isinstance(arg, Derivative):
         lprint(f'israndom: {type(arg)}')
         return israndom(arg.args[0], verbose=verbose)
+    elif isinstance(arg, Integral):
+        lprint(f'israndom: {type(arg)}')
+        bounds = [bound for limit in arg.args[1:] for bound in limit[1:]]
+        return any(israndom(elm, verbose=verbose) for elm in [arg.args[0]] + bounds)
     elif isinstance(arg, (Mul, Add, Pow)):
         lprint(f'israndom: {type(arg)}')
         return any(israndom(elm, verbose=verbose) for elm in arg.args)
-- 
2.43.0


From fc0ce24e3817483fdc6e0189b56276e86cf81f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 05/40] fix: render finite-difference code with a printer
 instead of successive string replacements

---
 src/sympkf/symbolic/finite_difference.py | 32 +++++++++++-------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..3468954 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -349,28 +349,26 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
-
-
-    code = str(finite)
+    from sympy.core.function import AppliedUndef
+    from sympy.printing.str import StrPrinter
 
+    # -1- Get the dx's of the coordinates
+    dx_code = {}
+    for function in finite.atoms(AppliedUndef):
+        x, dx = get_function_coordinates(function)
+        for xi, dxi in zip(x, dx):
+            dx_code[dxi] = dx_coding_rule(xi)
 
-    loc_x_dx = []
+    # -2- Print the expression where functions and dx's are replaced by their code
+    class CodePrinter(StrPrinter):
 
-    # -1- Replace functions
-    for function in finite.atoms(Function):
-        x, dx = get_function_coordinates(function)
-        for xi,dxi in zip(x,dx):
-            if (xi,dxi) not in loc_x_dx:
-                loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+        def _print_AppliedUndef(self, function):
+            return code_regular_function(function, slice_coding_rule)
 
-    # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
+        def _print_Symbol(self, symbol):
+            return dx_code[symbol] if symbol in dx_code else super()._print_Symbol(symbol)
 
-    return code
+    return CodePrinter().doprint(finite)
 
 
 class Code(object):
-- 
2.43.0


From bc8bea89029d7dac97cf4af02d85f23234ce1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/40] fix: clean LaTeX names of coordinates and symbols in
 rendered code

---
 src/sympkf/symbolic/finite_difference.py | 7 ++++---
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 3468954..958e109 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -351,13 +351,14 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     """
     from sympy.core.function import AppliedUndef
     from sympy.printing.str import StrPrinter
+    from .tool import clean_latex_name
 
     # -1- Get the dx's of the coordinates
     dx_code = {}
     for function in finite.atoms(AppliedUndef):
         x, dx = get_function_coordinates(function)
         for xi, dxi in zip(x, dx):
-            dx_code[dxi] = dx_coding_rule(xi)
+            dx_code[dxi] = dx_coding_rule(clean_latex_name(xi))
 
     # -2- Print the expression where functions and dx's are replaced by their code
     class CodePrinter(StrPrinter):
@@ -366,7 +367,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
             return code_regular_function(function, slice_coding_rule)
 
         def _print_Symbol(self, symbol):
-            return dx_code[symbol] if symbol in dx_code else super()._print_Symbol(symbol)
+            return dx_code[symbol] if symbol in dx_code else clean_latex_name(symbol)
 
     return CodePrinter().doprint(finite)
 
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From 4d99decac821ecb550a4912a669b679682fd2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 07/40] fix: tell a coordinate from its increment whatever the
 name of the coordinate

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..38e1d03 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From a4f73ee562442ee1c409d5c5a68b7ed3d8c6c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/40] fix: coordinate arrays of the generated models have the
 shape of the fields (indexing ij)

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..ecc450c 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing="ij")
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From 86a16894b2563ae3732b195b7c9cd4d89fb48fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 09/40] fix: standard functions (exp, sqrt, cos..) in the
 equations of a generated model

---
 src/sympkf/symbolic/model_builder.py | 12 +++++++++++-
 src/sympkf/symbolic/util.py          |  6 +++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..35ff378 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -3,6 +3,8 @@ from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionS
 
 from jinja2 import Template
 
+from sympy.printing.numpy import NumPyPrinter
+
 from .tool import clean_latex_name
 
 class MetaFunction(object):
@@ -85,6 +87,13 @@ class MetaCoordinate(object):
         return str(self.as_symbolic)
 
 
+class CodePrinter(NumPyPrinter):
+    """ Printer of the algebraic equations, where numpy is imported as np (see the header template) """
+
+    def _module_format(self, fqn, register=True):
+        return super()._module_format(fqn, register).replace('numpy.', 'np.')
+
+
 class MetaFactory(object):
 
     def __new__(cls):
@@ -114,6 +123,7 @@ class ModelBuilder(object):
     from .templates.header import template as template_header
     from .templates.footer import template as template_footer
     _default_name = 'NumModel'
+    _code_printer = CodePrinter()
     template_body = None
     meta_factory = None
 
@@ -273,7 +283,7 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            code_line = str(lhs)+'[:] = '+self._code_printer.doprint(rhs)
             # 4. Add to code.
             trend_code.append(code_line)
 
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 38e1d03..e02c6db 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -3,6 +3,7 @@
 """
 
 from sympy import Derivative, Function, Symbol, symbols, Add
+from sympy.core.function import AppliedUndef
 from .tool import clean_latex_name
 import sympy
 
@@ -238,10 +239,13 @@ class PDESystem(object):
     def _get_functions(self):
         """ Extract all functions present in the system of pde """
 
+        from .random import Expectation
+
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            # standard functions (sin, exp, ..) are not fields of the system
+            functions.update(equation.atoms(AppliedUndef, Expectation))
 
         return functions
 
-- 
2.43.0


From 15e6e13877f46077ebd1804bc1f8c5d938c11fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 10/40] fix: names which are Python keywords (e.g. lambda)
 become valid identifiers

---
 src/sympkf/symbolic/tool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..ca2f364 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,6 @@
+import keyword
+
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +20,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- Python keywords (e.g. from '\\lambda') are not valid variable names
+    if keyword.iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From ab9771d7a845dd49240cb8820e1418cde982c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 11/40] fix: spatial coordinates that appear explicitly in an
 equation are defined in the generated trend

---
 src/sympkf/symbolic/model_builder.py    | 9 +++++++++
 src/sympkf/symbolic/templates/footer.py | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 35ff378..1ba842e 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -233,6 +233,14 @@ class ModelBuilder(object):
                                          for index, coordinate in enumerate(self.pde_system.spatial_coordinates)]
         return self._spatial_coordinates
 
+    @property
+    def explicit_coordinates(self):
+        """ Spatial coordinates that appear explicitly in the pseudo algebraic system """
+        symbols = set()
+        for equation in self.pseudo_algebraic_system:
+            symbols.update(equation.args[1].free_symbols)
+        return [coordinate for coordinate in self.spatial_coordinates if coordinate.as_symbolic in symbols]
+
     def _make_pseudo_algebaraic_system(self):
         """ Create the pseudo algebraic system associted with the PDE system
             this represent the equation where rhs are algebraic + standard functions (sin/cos/tan/ .. )
@@ -318,6 +326,7 @@ class ModelBuilder(object):
                 exogenous_functions=self.exogenous_functions,
                 exogenous_functions_flag=self.exogenous_functions != [],
                 coordinates=self.spatial_coordinates,
+                explicit_coordinates=self.explicit_coordinates,
                 constants=self.constants,
                 constants_flag=self.constants != [],
                 constant_functions=self.constant_functions,
diff --git a/src/sympkf/symbolic/templates/footer.py b/src/sympkf/symbolic/templates/footer.py
index b78eb9e..74f342f 100644
--- a/src/sympkf/symbolic/templates/footer.py
+++ b/src/sympkf/symbolic/templates/footer.py
@@ -19,6 +19,13 @@ template = '''
         {{function.as_keyvar}} = state[{{function.index}}]
         {% endfor %}  
         
+        {% if explicit_coordinates -%}
+        # Alias for coordinates
+        #----------------------
+        {% for coord in explicit_coordinates -%}
+        {{coord.as_keyvar}} = self.X[{{coord.index}}]
+        {% endfor %}
+        {% endif %}
         {% if constant_functions_flag %}
         # Alias for constant functions
         #-----------------------------
-- 
2.43.0


From 2f27bfcd29ebfc451f38f74ac3b5b414550f92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 12/40] fix: trend arrays of generated models no longer clash
 with a field named d<field>

---
 src/sympkf/symbolic/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 1ba842e..31db7e8 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -29,7 +29,7 @@ class MetaPrognosticFunction(MetaFunction):
         self.trend = self._set_trend()
 
     def _set_trend(self):
-        return 'd'+self.as_keyvar
+        return 'd'+self.as_keyvar+'_dt' # not 'du', which may be the name of another field
 
 
 class MetaDerivative(object):
-- 
2.43.0


From 2c9c5f8d45790937f931efe127e52a553c052397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 13/40] fix: the closure given to SymbolicPKF is copied, not
 shared with the caller

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1c650c0..d26254d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From a0ece17edf54f977e2214dc4c517ae8ecbea52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 14/40] fix: univariate terms of unknown fields are discarded
 without changing the dictionary while iterating

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d26254d..5e7e3f1 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -803,7 +803,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From 9b0ff6dcf28118c5b09744a904beb5f79d314fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 15/40] fix: trend arrays of generated models cannot clash with
 a field named du_dt

---
 src/sympkf/symbolic/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 31db7e8..3cae00a 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -29,7 +29,7 @@ class MetaPrognosticFunction(MetaFunction):
         self.trend = self._set_trend()
 
     def _set_trend(self):
-        return 'd'+self.as_keyvar+'_dt' # not 'du', which may be the name of another field
+        return '_d'+self.as_keyvar # not 'du', which may be the name of another field
 
 
 class MetaDerivative(object):
-- 
2.43.0


From 9fca9ae94bbe8a4dd2ce6e9d0eed5106c45b5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 16/40] fix: make_M returns the propagator, not its transpose

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..462ef13 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,7 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            M = np.asarray(M).T # the i-th column is the forecast of the i-th unit vector
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From e0258e9afdd5b132cdb7556280fc93a3cc790819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 17/40] fix: a single saved time may be any number (e.g. an
 int)

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index 462ef13..a78c258 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -287,7 +287,7 @@ class Model(object):
     def _check_saved_times(window, saved_times):
         if saved_times is None:
             saved_times = window
-        elif type(saved_times)==float or type(saved_times)==np.float64:
+        elif np.isscalar(saved_times):
             saved_times = [saved_times]
         return saved_times
 
-- 
2.43.0


From 2ff905c54aca4b80bb1012a80ab29f296487075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 18/40] fix: the packaged Burgers PKF model can be built

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From 7e075a1e721e5aa8d7cbffe0d11df652e674357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 19/40] fix: models on a manifold honour the options of Model
 (time scheme)

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From c0c85a14d60d31c1db6e749462420de53e0a8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 20/40] fix: multi-dimensional Taylor coefficients of the
 closure are multiplied by the factorial of the multi-index

---
 src/sympkf/symbolic/pkfcas.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 5e7e3f1..a1f5385 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1379,25 +1379,22 @@ class Closure(object):
         order = order + 1
         if self._order < order:
             # 1. Compute terms until order
-            factorial = 1
             for partial_order in range(order):
 
                 partial_order = int(partial_order)
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
                     coeff_alpha = self.taylor(order).expand()
-                    for xi, dxi in zip(self._x,self._dx):
-                        alpha_i = alpha.as_sequence.count(xi)
+                    factorial = Integer(1) # alpha!
+                    for dxi, alpha_i in zip(self._dx, alpha.as_tuple):
+                        factorial *= sympy.factorial(alpha_i)
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-                    closure[term] = Integer(factorial) * coeff_alpha
+                    closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
             # 2. Update the order
-- 
2.43.0


From 4a552d8d6b285a999512fdcb33d6c76060a5f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 21/40] fix: closures do not depend on earlier requests (Taylor
 expansion, order, metric form)

---
 src/sympkf/symbolic/pkfcas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a1f5385..e0c4769 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1377,7 +1377,7 @@ class Closure(object):
         :return: a
         """
         order = order + 1
-        if self._order < order:
+        if len(self._closure_by_order) < order:
             # 1. Compute terms until order
             for partial_order in range(order):
 
@@ -1397,10 +1397,8 @@ class Closure(object):
                     closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
-            # 2. Update the order
-            self._order = order
-
-        return self._closure_by_order
+        # 2. Copy of the terms until order
+        return {partial_order: dict(self._closure_by_order[partial_order]) for partial_order in range(order)}
 
     def closure(self, order):
         closure = {}
-- 
2.43.0


From 7405c71b972cdd69d92f1ca8db99dbced286a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 22/40] fix: terms of the closures are written with the
 canonical derivatives of the PKF systems

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index e0c4769..1fc286d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1393,7 +1393,7 @@ class Closure(object):
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
                     closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
@@ -1416,7 +1416,7 @@ class Closure(object):
         system_s_to_g = []
         for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
             # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
             # -2- Eliminate derivatives
             subs_term = subs_closure_by_order[second_order][term]
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-- 
2.43.0


From 5769a10c13f7ec78ebef647ee2a93018ddca96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 23/40] fix: closures in metric use the tensor indices of the
 second-order terms

---
 src/sympkf/symbolic/pkfcas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1fc286d..24f2506 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1422,17 +1422,15 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
             system_s_to_g.append(Eq(g_dico[term], subs_term))
 
         # -2- expression en fonction de la notation de la métrique
-        s_to_g = sympy.solve(system_s_to_g, *s_dico.values())
+        s_to_g = sympy.solve(system_s_to_g, *s_dico.values(), dict=True)
+        s_to_g = s_to_g[0] if s_to_g else {}
 
         # -3- Replace in all subs_closure
         for order in subs_closure_by_order:
-- 
2.43.0


From 5ab123bf84d57a7c0a90aeef9ec9afdbe6f7ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 24/40] fix: local Gaussian correlation in metric has the
 metric as second-order term

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 24f2506..dffb613 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1462,7 +1462,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = Rational(1, 2) * dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From e9a08f4ae7c57910c97db6718c35b599f6f20f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 25/40] fix: equations that become trivial under
 subs/doit/expand do not raise

---
 src/sympkf/symbolic/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index e02c6db..3a9940e 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -131,17 +131,21 @@ class Eq(sympy.Eq):
     def __sub__(self, eq):
         return self.__class__(*[self.args[k] - eq.args[k] for k in range(2)])
 
+    def _from_sympy(self, eq):
+        # an equation which reduces to True/False is kept as it is
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
+
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._from_sympy(eq)
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._from_sympy(eq)
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._from_sympy(eq)
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From 263342201ede5552f5157cc9e92fca6a48d0d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 26/40] fix: products of equations, by the left (as documented)
 and side by side (as *=)

---
 src/sympkf/symbolic/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 3a9940e..66c21ff 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -114,14 +114,14 @@ class Eq(sympy.Eq):
     """
 
     def __mul__(self, alpha):
-        return self.__class__(*[alpha * self.args[k] for k in range(2)])
-
-    def __imul__(self, alpha):
         if isinstance(alpha, Eq):
             return self.__class__(*[self.args[k] * alpha.args[k] for k in range(2)])
         else:
             return self.__class__(*[alpha * self.args[k] for k in range(2)])
 
+    __rmul__ = __mul__
+    __imul__ = __mul__
+
     def __add__(self, eq):
         return self.__class__(*[self.args[k] + eq.args[k] for k in range(2)])
 
-- 
2.43.0


From 6474fb645d3c14a99ec8d607c9cf259dea2d23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 27/40] fix: prognostic functions are those whose trend is
 given, once each

---
 src/sympkf/symbolic/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 66c21ff..6841b45 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -259,10 +259,11 @@ class PDESystem(object):
         prognostic_functions = []
 
         for equation in self.equations:
-            derivatives = equation.atoms(Derivative)
+            lhs = equation.args[0]
+            # the trend given by the equation (any time derivative if the equation is not explicit)
+            derivatives = [lhs] if isinstance(lhs, Derivative) else equation.atoms(Derivative)
             for derivative in derivatives:
-                coordinates = derivative.args[1].atoms(Symbol)
-                if self._time_symbol in coordinates:
+                if self._time_symbol in derivative.variables and derivative.args[0] not in prognostic_functions:
                     prognostic_functions.append(derivative.args[0])
 
         return prognostic_functions
-- 
2.43.0


From 06f8bac2d7cf29dbaafac64c0fc2699e0f78d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 28/40] fix: a function is constant when none of its arguments
 is the time

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 6841b45..4dbaee1 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -274,7 +274,7 @@ class PDESystem(object):
         constant_functions = set()
 
         for variable in self.functions.difference(self.prognostic_functions):
-            coordinates = variable.args[0].atoms(Symbol)
+            coordinates = variable.free_symbols
             if self._time_symbol not in coordinates:
                 constant_functions.update({variable})
 
-- 
2.43.0


From 2015ad5f73ff7f31746c6cada361c26e15f355fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 29/40] fix: the packaged 1D advection names the advected field
 c, not as its velocity u

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From 40b9bfab4883bc5528ba4a8abd3c0b5e79c8eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 30/40] fix: gradient and div accept standard functions (exp,
 sin..) of the fields and coordinates

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 4dbaee1..f354cdc 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -594,7 +594,7 @@ class CoordinateSystem(object):
             return False
 
     def _check_compatible(self, expr):
-        for function in expr.atoms(Function):
+        for function in expr.atoms(AppliedUndef):
             if not self.is_compatible(function):
                 raise ValueError(f'field args {function.args} not compatible with coordinates {self._coords}')
 
-- 
2.43.0


From 1761219404b6efd300c4ffdbc7620c2504bfea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 31/40] fix: remove_eval_derivative substitutes the points at
 the same time (permuted variables)

---
 src/sympkf/symbolic/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index f354cdc..b815e9f 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -371,8 +371,13 @@ def remove_eval_derivative(expr):
     eval_terms = expr.atoms(sympy.Subs)
     eval_derivative = {}
     for eval_term in eval_terms:
-        eval_derivative[eval_term] = eval_term.args[0].subs({
-            key: value for key, value in zip(eval_term.args[1], eval_term.args[2])
+        expression, variables, points = eval_term.args
+        if points.free_symbols.intersection(variables):
+            # the points depend on the variables (e.g. permuted): rename the variables first
+            renamed = [sympy.Dummy(str(variable)) for variable in variables]
+            expression, variables = expression.xreplace(dict(zip(variables, renamed))), renamed
+        eval_derivative[eval_term] = expression.subs({
+            key: value for key, value in zip(variables, points)
         })
     return expr.subs(eval_derivative).doit()
 
-- 
2.43.0


From 3d90aa041b9243e9d9cec026f3bcc55d018fa493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 32/40] fix: univariate terms and the time coordinate are
 recognised by equality, not by identity (results depended on the cache of
 sympy)

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index dffb613..fa8530e 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -874,12 +874,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -889,7 +889,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -928,7 +928,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From 234bb07a1eddecc493e810d18d87477eb63e0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:12 +0000
Subject: [PATCH 33/40] fix: a coefficient named \varepsilon was taken for the
 amplitude of the perturbation in the Reynolds decomposition

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index fa8530e..b351d0d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -86,7 +86,7 @@ class SymbolicPKF(object):
         first_order_reynolds = []
         second_order_reynolds = []
 
-        epsilon = symbols('\\varepsilon')
+        epsilon = sympy.Dummy('\\varepsilon')
         subs_reynolds = {            
             field: Expectation(self.fields[field].random) + epsilon * self.fields[field].error            
             for field in self.fields
-- 
2.43.0


From 8ab846d5d81c279a11224154c53b94d3b23e6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 34/40] fix: two couples of fields could share the name of
 their cross-covariance (u,uv and uu,v)

---
 src/sympkf/symbolic/pkfcas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index b351d0d..ef30465 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -738,7 +738,12 @@ class SymbolicPKF(object):
             assert cf1==cf2, ValueError("f1 and f2 have different coordinate system")
             coordinates = cf1
 
-            return Function(self._label_covariance+f1.name+f2.name)(*coordinates)
+            label = f1.name+f2.name
+            # two couples may have the same label e.g. (u,vw) and (uv,w)
+            if [g1.name+g2.name for g1,g2 in self.multivariate_couples].count(label)>1:
+                label = f1.name+','+f2.name
+
+            return Function(self._label_covariance+label)(*coordinates)
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
-- 
2.43.0


From 970125dc8cbc706833115f138a9839c3302a522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:04 +0000
Subject: [PATCH 35/40] fix: exogenous functions of a generated model come in
 an order that does not depend on the hash seed

---
 src/sympkf/symbolic/model_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 3cae00a..3ec2f54 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -209,8 +209,10 @@ class ModelBuilder(object):
     @property
     def exogenous_functions(self):
         if self._exogenous_functions is None:
+            # sorted: the order in which compute_exogenous returns them should not depend on the process
+            exogenous_functions = sorted(self.pde_system.exogenous_functions, key=str)
             self._exogenous_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.exogenous_functions)]
+                                        for index, function in enumerate(exogenous_functions)]
         return self._exogenous_functions
 
     @property
-- 
2.43.0


From d36578838fb36b7caf12373b229eb2e44ba559b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:04 +0000
Subject: [PATCH 36/40] fix: two components of a tensor could share their name
 (coordinates xy, x, yx)

---
 src/sympkf/symbolic/pkfcas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index ef30465..c25d8ba 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1010,7 +1010,12 @@ class Field(object):
     def index_code(self,i,j):
         if j<i:
             i,j = j,i
-        return self.spatial_coords_code[i] + self.spatial_coords_code[j]
+        codes = self.spatial_coords_code
+        code = codes[i] + codes[j]
+        # two components may have the same code e.g. (xy,x) and (x,yx)
+        if [c1+c2 for k,c1 in enumerate(codes) for c2 in codes[k:]].count(code)>1:
+            code = codes[i] + ',' + codes[j]
+        return code
 
     def metric_func(self,i,j):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
-- 
2.43.0


From 9c3f9ded01075e228bc39dd0fe8c16a1520148ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:18 +0000
Subject: [PATCH 37/40] fix: the mean dynamics left moments that the metric
 determines (E[(d_x eps)^2] in place of g_xx)

---
 src/sympkf/symbolic/pkfcas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index c25d8ba..8cd6c0a 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -166,9 +166,10 @@ class SymbolicPKF(object):
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
                 # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                lhs, rhs = equation.subs(self.internal_closure).doit().args
+                rhs = self._apply_internal_closure(rhs).doit()
 
-                expectation_system.append(equation)
+                expectation_system.append(Eq(lhs, rhs))
 
             self._expectation_system = expectation_system
 
-- 
2.43.0


From 97211a0228a78b610020d692176553a2a1e4d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:18 +0000
Subject: [PATCH 38/40] fix: forecast_tl divided twice the values at a saved
 time given twice

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index a78c258..ef54105 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -262,7 +262,7 @@ class Model(object):
         perturbed_states = ( (state + perturbation * h) for perturbation in perturbations)
         tl_forecasts = self.ensemble_forecast(window, perturbed_states, saved_times)
         # Computation of the perturbation a time
-        for q in saved_times:
+        for q in tl_forecasts:
             tl_forecasts[q] = [ (state - forecast[q] )/h for state in tl_forecasts[q] ]
         return forecast, tl_forecasts
     
-- 
2.43.0


From 940034cd97ddbd8a9ccee8a4e8b4f9e1987349da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:18 +0000
Subject: [PATCH 39/40] fix: get_covariance(v,u) was a function which is in no
 equation (V_vu in place of V_uv)

---
 src/sympkf/symbolic/pkfcas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 8cd6c0a..fa32770 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -725,6 +725,8 @@ class SymbolicPKF(object):
     
     def get_covariance(self, f1, f2):
         if all([field in self.fields for field in [f1,f2]]):
+            # 0. The covariance is symmetric: the couple is taken in the order of the fields
+            f1, f2 = sorted([f1,f2], key=list(self.fields).index)
             # 1. Get associated metafields
             mf1 = self.fields[f1]
             mf2 = self.fields[f2]
-- 
2.43.0


From a527623a987411260769bf7feb6317769c38f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:22 +0000
Subject: [PATCH 40/40] fix: the generated trend mixed up a field named state
 or dstate with its local variables

---
 src/sympkf/symbolic/templates/footer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sympkf/symbolic/templates/footer.py b/src/sympkf/symbolic/templates/footer.py
index 74f342f..f82c97e 100644
--- a/src/sympkf/symbolic/templates/footer.py
+++ b/src/sympkf/symbolic/templates/footer.py
@@ -5,18 +5,19 @@ template = '''
         # Init output state with pointer on data
         #-------------------------------------------
 
-        #   a) Set the output array
-        dstate = np.zeros(state.shape)
+        #   a) Set the output array (a function of the dynamics may be named `state`, or `dstate`)
+        _state = state
+        _trend = np.zeros(_state.shape)
 
-        #   b) Set pointers on output array `dstate` for the computation of the physical trend (alias only).
+        #   b) Set pointers on output array `_trend` for the computation of the physical trend (alias only).
         {% for function in prognostic_functions -%}
-        {{function.trend}} = dstate[{{function.index}}]
+        {{function.trend}} = _trend[{{function.index}}]
         {% endfor %}
 
         # Load physical functions from state
         #------------------------------------
         {% for function in prognostic_functions -%}
-        {{function.as_keyvar}} = state[{{function.index}}]
+        {{function.as_keyvar}} = _state[{{function.index}}]
         {% endfor %}  
         
         {% if explicit_coordinates -%}
@@ -45,9 +46,9 @@ template = '''
         {% if exogenous_functions_flag %}
         # Compute exogenous functions
         #-----------------------------
-        exogenous = self.compute_exogenous(t, state) # None if no exogenous function exists
+        _exogenous = self.compute_exogenous(t, _state) # None if no exogenous function exists
         {% for function in exogenous_functions -%}
-        {{function.as_keyvar}} = exogenous[{{function.index}}]
+        {{function.as_keyvar}} = _exogenous[{{function.index}}]
         {% endfor %} 
         {% endif -%}
         
@@ -66,7 +67,7 @@ template = '''
         {{line}}
         {% endfor %}
         
-        return dstate        
+        return _trend        
 
     {% if exogenous_functions_flag %}
     def compute_exogenous(self, t, state):
-- 
2.43.0

