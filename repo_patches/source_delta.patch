From b860e3a22ce15a93aafade690c4bd2db11fd0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/20] fix: ChainedMinimizer hands over only the free
 parameters

The values of fixed parameters were included in the guess for the next
minimizer, so a chain with a fixed parameter failed or started in the wrong
point.
---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..cf111a2 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,9 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            # Hand over the free parameters only, fixed parameters are not part
+            # of the guess.
+            next_guess = [ans.value(p) for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From 1245f99ca02791e217b05fdcf0f49f98f6c51153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/20] fix: chains may contain a minimizer without an
 iteration count

MINPACK reports no number of iterations, so any chain with MINPACK in it
raised a TypeError after all the work was done.
---
 symfit/core/minimizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index cf111a2..fb6774c 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -269,7 +269,10 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        # Not every minimizer reports the number of iterations.
+        final.minimizer_output['nit'] = sum(
+            ans.iterations for ans in answers if ans.iterations is not None
+        )
         return final
 
     def _make_signature(self):
-- 
2.43.0


From 26be0caef0b02c7654a654afe7b8a47730a9866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 03/20] fix: resize_hess returns the Hessian instead of its
 diagonal

out[mask, mask] pairs the two masks element by element, so the minimizer
received a row with the diagonal of the Hessian.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index fb6774c..8317c47 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
 
-- 
2.43.0


From e61b80446e2e3c0c3d87bac443b20c399d3aae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 04/20] fix: TrustConstr uses the Hessian of each constraint

The late binding of con made all constraints use the Hessian of the last.
---
 symfit/core/minimizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 8317c47..cdfff90 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -593,7 +593,11 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                # Bind the Hessian of this constraint now, since con will refer
+                # to the last constraint by the time this is called.
+                nonlinearconstr_kwargs['hess'] = (
+                    lambda x, v, hess=con['hess']: hess(x) * v
+                )
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From 197d9a50c9c427ab9f3116e8a744a36aa0292f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 05/20] fix: do not modify the options given by the caller

TrustConstr and BasinHopping wrote into the dicts given as options and
minimizer_kwargs. Sharing them between fits made the second fit use the
jacobian, bounds and constraints of the first.
---
 symfit/core/minimizers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index cdfff90..d61495d 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -605,8 +605,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        # Work on a copy, the options belong to the caller.
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -726,8 +726,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Work on a copy, minimizer_kwargs belongs to the caller.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From b9a8796bff27b68092161bf2774fe2b7e5a8e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 06/20] fix: objectives use the current value of fixed
 parameters

The value a fixed parameter had upon the first evaluation was remembered
forever, so executing a fit again after changing it used the old value while
reporting the new one.
---
 symfit/core/objectives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..75aee58 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -128,13 +128,14 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
                 shaped_result.append(component)
         return shaped_result
 
-    @cached_property
+    @property
     def _invariant_kwargs(self):
         """
         Prepares the invariant kwargs to ``self.model`` which are not provided
         by the minimizers, and are the same for every iteration of the
         minimization. This means fixed parameters and data, matching the
-        signature of ``self.model``.
+        signature of ``self.model``. Not cached, because the values of the
+        fixed parameters can change between two minimizations.
         """
         kwargs = {p: p.value for p in self.model.params
                   if p not in self.model.free_params}
-- 
2.43.0


From 35c3e9f2f89cfaac90288fb6a6d831bc36c6988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 07/20] fix: minimizers use the current fixed flag of their
 parameters

The division in free and fixed parameters was remembered from the moment of
initiation, while the objective and the packing of the output use the current
flags. Executing a fit again after (un)fixing a parameter therefore raised a
StopIteration or silently assigned values to the wrong parameters.
---
 symfit/core/minimizers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index d61495d..7d75f7b 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -33,12 +33,10 @@ class BaseMinimizer(object):
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
         self.parameters = parameters
-        self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
 
         # Mapping which we use to track the original, to be used upon pickling
         self._pickle_kwargs = {'parameters': parameters, 'objective': objective}
-        self.params = [p for p in parameters if not p.fixed]
 
     def _baseobjective_from_callable(self, func, objective_type=MinimizeModel):
         """
@@ -82,6 +80,17 @@ class BaseMinimizer(object):
         """
         pass
 
+    @property
+    def params(self):
+        """
+        :return: list of the parameters which are currently free.
+        """
+        return [p for p in self.parameters if not p.fixed]
+
+    @property
+    def _fixed_params(self):
+        return [p for p in self.parameters if p.fixed]
+
     @property
     def initial_guesses(self):
         try:
-- 
2.43.0


From 9bd70a6795daeb1ed26ce8614bf399d51c8ea239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/20] fix: pickling a model while another thread evaluates it

__getstate__ iterated over the live __dict__ and failed when a cached_property
was added to it meanwhile.
---
 symfit/core/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..ace567e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -522,7 +522,7 @@ class BaseModel(Mapping):
         # re-calculated after pickle.
         state = self.__dict__.copy()
         del state['__signature__']
-        for key in self.__dict__:
+        for key in list(state):
             if key.startswith(cached_property.base_str):
                 del state[key]
         return state
-- 
2.43.0


From 70197404dcb8352d12673db61d5b78beedbbf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 09/20] fix: components provided as a list keep their order

They were ordered by their address in memory, which differs from run to run,
and identical components were merged into one.
---
 symfit/core/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index ace567e..2f22849 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -138,8 +138,10 @@ class BaseModel(Mapping):
             # Temporarily introduced what should be a unique name derived from
             # the object's ID (preappended with an underscore for it to be a
             # valid identifier) to surpress the DepricationWarnings raised when
-            # instantiating a Variable without a name.
-            model = {Variable("_" + str(id(expr))): expr for expr in model}
+            # instantiating a Variable without a name. The index comes first,
+            # such that the components keep the order they were provided in.
+            model = {Variable("_{:04d}_{}".format(idx, id(expr))): expr
+                     for idx, expr in enumerate(model)}
         self._init_from_dict(model)
 
     @classmethod
-- 
2.43.0


From 7309754307f38a4a6265645856dba1f9ab818350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 10/20] fix: unnamed arguments created by several threads get
 different names

The counter was read and incremented in separate steps.
---
 symfit/core/argument.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..838e534 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: MIT
 
 from collections import defaultdict
+import itertools
 import numbers
 import warnings
 
@@ -29,7 +30,7 @@ class Argument(Symbol):
     __slots__ = ['_argument_index', '_argument_name']
     # TODO: Make sure this also survives a pickle/unpickle to a fresh(!)
     #       interpreter.
-    _argument_indices = defaultdict(int)
+    _argument_indices = defaultdict(itertools.count)
 
     def __new__(cls, name=None, **assumptions):
         """
@@ -37,6 +38,9 @@ class Argument(Symbol):
         for more information.
         """
         assumptions['real'] = True
+        # Draw the index in a single step, such that threads which are creating
+        # arguments at the same time never share one.
+        index = next(cls._argument_indices[cls])
         # Generate a dummy name
         if not name:
             # Throw a warning that is is better to explicitly give names.
@@ -47,12 +51,11 @@ class Argument(Symbol):
                 DeprecationWarning, stacklevel=2
             )
 
-            name = '{}_{}'.format(cls._argument_name, cls._argument_indices[cls])
+            name = '{}_{}'.format(cls._argument_name, index)
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
         else:
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
-        instance._argument_index = cls._argument_indices[cls]
-        cls._argument_indices[cls] += 1
+        instance._argument_index = index
         return instance
 
     def __init__(self, name=None, *args, **assumptions):
-- 
2.43.0


From f14bb3f588ca6f5529a2bdb85c3d45bf7494cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/20] fix: evaluate an ODEModel on just the initial point

With an array holding only the initial time neither integration is needed,
which raised an AttributeError. A scalar initial time was already supported.
---
 symfit/core/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 2f22849..97b3332 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1216,7 +1216,12 @@ class ODEModel(BaseGradientModel):
             **self.integrator_kwargs
         ) if len(t_smaller) > 1 else None
 
-        if ans_smaller is not None and ans_bigger is not None:
+        if ans_smaller is None and ans_bigger is None:
+            # Only the initial point (or nothing at all) was requested.
+            ans = np.repeat(
+                np.atleast_2d(initial_dependent).T, len(t_bigger), axis=1
+            )
+        elif ans_smaller is not None and ans_bigger is not None:
             if not ans_smaller.success:
                 raise ODEError(ans_smaller.message)
             elif not ans_bigger.success:
-- 
2.43.0


From d86b341f0ff62b939670c6ea70c1386fccf50214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 12/20] fix: with_dependencies leaves the caller's
 connectivity_mapping alone

The mapping given to as_constraint or with_dependencies was extended in place
with the components of the dependency model.
---
 symfit/core/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 97b3332..df31827 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -235,6 +235,10 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
+            # Work on a copy, the mapping belongs to the caller.
+            connectivity_mapping = dict(connectivity_mapping)
+            if 'connectivity_mapping' in init_kwargs:
+                init_kwargs['connectivity_mapping'] = connectivity_mapping
             for var in model.independent_vars:
                 if var in dependency_model:
                     # Add this var and all its dependencies.
@@ -250,9 +254,8 @@ class BaseModel(Mapping):
                         if symbol == var:
                             break
             # connectivity_mapping in init_kwargs has been updated if it was
-            # present, since python is pass by reference. If it wasn't present,
-            # we are dealing with a type of model that will build its own
-            # connectivity_mapping upon init.
+            # present. If it wasn't present, we are dealing with a type of
+            # model that will build its own connectivity_mapping upon init.
             model = cls(model_dict, **init_kwargs)
         return model
 
-- 
2.43.0


From fea460a7949f3eb238fa820d4bacdc317481e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 13/20] fix: derivatives of models with chains of dependent
 components

Differentiating nested functions gives derivatives with respect to another
component. These are not components of the Jacobian, so evaluating it
raised a NameError.
---
 symfit/core/models.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index df31827..a2e2d92 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1305,13 +1305,30 @@ def jacobian_from_model(model, as_functions=False):
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
         of ``model``.
     """
+    # Turn the components into functions of the symbols they ultimately depend
+    # on, and not into nested functions: derivatives of nested functions contain
+    # derivatives with respect to another component, which is not a parameter.
+    vars_as_functions = {}
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    for symbol in model.ordered_symbols:
+        if symbol in model.connectivity_mapping:
+            args = set()
+            for dependency in model.connectivity_mapping[symbol]:
+                if dependency in vars_as_functions:
+                    args.update(vars_as_functions[dependency].args)
+                else:
+                    args.add(dependency)
+            vars_as_functions[symbol] = sympy.Function(symbol.name)(
+                *sorted(args, key=key)
+            )
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    functions_as_vars = dict((v, k) for k, v in vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars_as_functions.items():
+        expr = model.model_dict[var].xreplace(vars_as_functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From a6ab8293851ff8d621e44419486f665c1cfb8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 14/20] fix: arguments can have the name of a sympy function

Printing the name through doprint turned it into the sympy object of that
name, so models with a parameter called e.g. gamma or N could not be
evaluated.
---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 838e534..f34a9f6 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -76,7 +76,7 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From fbd1925447b9c0a2d98bfcd668f58907c1021761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 15/20] fix: minimizers accept parameters in any order

The objective takes its parameters in alphabetical order. A minimizer
which is used directly with parameters in another order reported the
values of one parameter for another.
---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 7d75f7b..d84f76d 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -32,7 +32,8 @@ class BaseMinimizer(object):
         :param objective: Objective function to be used.
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
-        self.parameters = parameters
+        # Objectives take and return values in alphabetical order.
+        self.parameters = sorted(parameters, key=lambda p: p.name)
         self.objective = self._baseobjective_from_callable(objective)
 
         # Mapping which we use to track the original, to be used upon pickling
-- 
2.43.0


From 68779db86257a24aa904010472c17749331cb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 16/20] fix: an ODE integration that stopped early raises an
 error

---
 symfit/core/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index a2e2d92..6fa7ed3 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1239,6 +1239,11 @@ class ODEModel(BaseGradientModel):
                 raise ODEError(ans_smaller.message)
             ans = ans_smaller.y[:, ::-1]
 
+        if ans.shape[1] != len(t_total):
+            # For example because a terminal event stopped the integration.
+            raise ODEError('The integration stopped before the end of the '
+                           'requested range.')
+
         if t_initial in t_like:
             # The user also requested to know the value at t_initial, so keep it.
             return ans
-- 
2.43.0


From 47417d58befed7ca0e0d9f3ef6b73b11ab36b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 17/20] fix: error bars of interactive guesses are the
 percentiles of the model

---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..53ed48c 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -344,9 +344,9 @@ class StrategynD:
         y_plot_data = np.array(y_plot_data)
         y_plot_error = np.array(y_plot_error)
 
+        # The percentiles are values of the model, not distances to the mean.
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From af3c857b4b74d6d7ec880ad5dc92c5f61abfc464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 18/20] fix: constraints take only the components they depend
 on

---
 symfit/core/models.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 6fa7ed3..93833d0 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -241,18 +241,17 @@ class BaseModel(Mapping):
                 init_kwargs['connectivity_mapping'] = connectivity_mapping
             for var in model.independent_vars:
                 if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+                    # Add this var and all its dependencies, but none of the
+                    # other components of dependency_model.
+                    todo = [var]
+                    while todo:
+                        symbol = todo.pop()
+                        # Not every dependency is a key of model, think e.g.
+                        # parameters
+                        if symbol in dependency_model and symbol not in model_dict:
+                            model_dict[symbol] = dependency_model[symbol]
+                            connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
+                            todo.extend(connectivity_mapping[symbol])
             # connectivity_mapping in init_kwargs has been updated if it was
             # present. If it wasn't present, we are dealing with a type of
             # model that will build its own connectivity_mapping upon init.
-- 
2.43.0


From cf12487befd79f5cd2187e77b0499c958ce0bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 19/20] fix: a parameter declared again after sympy dropped the
 symbol from its cache was ignored

The new Parameter was replaced by the old one of the same name as soon as an
expression was built which sympy still had in its expression cache, so the
value, bounds and fixed flag of the new one were not used.
---
 symfit/core/argument.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index f34a9f6..aff065b 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -5,7 +5,9 @@
 from collections import defaultdict
 import itertools
 import numbers
+import threading
 import warnings
+import weakref
 
 from sympy.core.symbol import Symbol
 
@@ -27,10 +29,16 @@ class Argument(Symbol):
         print(y.name)
         >> 'y'
     """
-    __slots__ = ['_argument_index', '_argument_name']
+    __slots__ = ['_argument_index', '_argument_name', '__weakref__']
     # TODO: Make sure this also survives a pickle/unpickle to a fresh(!)
     #       interpreter.
     _argument_indices = defaultdict(itertools.count)
+    # The arguments that are in use. Sympy caches symbols and expressions
+    # separately, so a symbol could have been dropped from the one cache while
+    # expressions in the other still contain it. A new symbol of the same name
+    # would then turn into the old one as soon as such an expression is built.
+    _live_arguments = weakref.WeakValueDictionary()
+    _live_arguments_lock = threading.Lock()
 
     def __new__(cls, name=None, **assumptions):
         """
@@ -55,6 +63,10 @@ class Argument(Symbol):
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
         else:
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
+        with cls._live_arguments_lock:
+            instance = cls._live_arguments.setdefault(
+                (cls, instance._hashable_content()), instance
+            )
         instance._argument_index = index
         return instance
 
-- 
2.43.0


From 3ed4d2bdf5214cc0d202c8a6a12ba97b980f76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:00 +0000
Subject: [PATCH 20/20] fix: complex step through the gradient of LeastSquares
 with a constant component

---
 symfit/core/objectives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 75aee58..97f404c 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -346,7 +346,8 @@ class LeastSquares(HessianObjective):
                 sigma = self.sigma_data[sigma_var]
                 pre_sum = jac_comp * ((y - f) / sigma**2)[np.newaxis, ...]
                 axes = tuple(range(1, len(pre_sum.shape)))
-                result -= np.sum(pre_sum, axis=axes, keepdims=False)
+                # Not in place: some components can be complex while others are not.
+                result = result - np.sum(pre_sum, axis=axes, keepdims=False)
         return np.atleast_1d(np.squeeze(np.array(result)))
 
     def eval_hessian(self, ordered_parameters=[], **parameters):
-- 
2.43.0

