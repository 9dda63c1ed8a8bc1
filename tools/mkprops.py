"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None)))
M, O, F, R, MI, A, S, PR, IG = ('symfit/core/models.py', 'symfit/core/objectives.py', 'symfit/core/fit.py',
    'symfit/core/fit_results.py', 'symfit/core/minimizers.py', 'symfit/core/argument.py',
    'symfit/core/support.py', 'symfit/core/printing.py', 'symfit/contrib/interactive_guess/interactive_guess.py')

prop('C01', 'Threads sharing a model or objective get the answers of sequential use',
 'When several threads evaluate, differentiate, print or pickle the same model or objective at the same time, including its first use while derivatives and compiled functions are still being built, every call returns exactly what it would have returned had the calls been made one after another. No interleaving makes a call fail, mix up the inputs of two calls, or leave the model answering differently afterwards.',
 ['schedules', 'inputs'], 'every preemptive interleaving of 2-4 threads, every model kind (symbolic, gradient-less, numerical, interdependent, ODE), every objective, every set of calls',
 'The tests never evaluate a model from more than one thread; an interleaving inside the lazy compilation or inside an evaluation is never sampled.',
 [M, O, S, PR, 'symfit/core/operators.py'],
 [('lazily computed properties stored on the instance', S + ':cached_property'), ('per-call argument binding', M + ':BaseCallableModel.eval_components'), ('per-call parameter dictionary', O + ':BaseObjective.__call__'), ('shared printer attributes', PR + ':DontDeleteMe')],
 ['return values of model(...), eval_jacobian, eval_hessian, objective(...), str(model), pickle.dumps(model)'],
 [('_cached_*', 'lazily compiled derivative models and functions', M)])

prop('C02', 'Fits run in parallel threads give the results of running alone',
 'Fits that are built and executed at the same time in different threads of one process, whether they use unrelated models or share one model, its parameters and its data, each report the same parameter values, uncertainties, goodness of fit and status as when they are run alone. Parameters and variables created without a name by different threads never receive the same generated name.',
 ['schedules', 'configurations'], 'every interleaving of 2-3 threads, every minimiser and objective, with and without bounds, fixed parameters and constraints',
 'The tests run fits one at a time; the only parallel test uses separate processes.',
 [F, MI, O, A, R], [('all state of a fit lives on its own objects', F + ':Fit.__init__'), ('generated names come from a per-class counter', A + ':Argument.__new__')],
 ['FitResults.params, covariance_matrix, gof_qualifiers, status_message; names of unnamed Parameter()/Variable()'],
 [('Argument._argument_indices', 'process-wide counter for generated names', A)])

prop('C03', 'An interrupted evaluation never corrupts later answers',
 'If building, compiling, evaluating, differentiating or pickling a model or objective is cut short at an arbitrary instant by an exception (an interrupt, an out-of-memory error, an error raised by user-supplied code), that exception reaches the caller or the call still returns the right answer. Every later call on the same objects, and on models built afterwards, returns what it would have returned had the interrupted call never been made.',
 ['crash_points', 'fault_sequences', 'inputs'], 'an exception of several kinds raised at every executed source line of symfit during any operation, repeated faults included',
 'No test raises anything in the middle of an operation; the number of instants is unbounded and depends on the model.',
 [M, O, S, PR, 'symfit/core/operators.py'], [('a lazily computed property is stored only once complete', S + ':cached_property.__get__'), ('evaluation works on per-call data only', M + ':BaseCallableModel.eval_components'), ('printer attribute reset', PR + ':DontDeleteMe')],
 ['exceptions and return values of every call after the fault'], [('_cached_*', 'lazily compiled members', M)])

prop('C04', 'A failed or interrupted fit reports nothing, changes nothing, can be re-run',
 'When executing a fit is cut short, because the model raises, the numerical back end raises or the user interrupts it at an arbitrary instant, the error reaches the caller and no result is reported in its place. Executing the same fit again afterwards gives the same result as if the failed attempt had never happened.',
 ['crash_points', 'fault_sequences', 'configurations'], 'any minimiser (chained and global ones included), any objective, a fault at any line, at any model evaluation, or inside the optimiser, one or several failed attempts before the successful one',
 'The tests run fits to completion only.',
 [F, MI, O, M, R], [('guesses are read from the parameters at execution', MI + ':BaseMinimizer.initial_guesses'), ('stages of a chain pass their guess on explicitly', MI + ':ChainedMinimizer.execute'), ('results are built only after the optimiser returned', F + ':Fit.execute')],
 ['exception raised by Fit.execute; FitResults of the following execute'], [('_initial_guesses', 'start point override kept on a minimiser', MI)])

prop('C05', 'Every request of an optimiser is answered by the objective at that point',
 'However an optimiser orders, repeats or interleaves its requests for objective value, gradient, Hessian and constraint values, even when it overwrites its own input buffers or the returned arrays and when some requests fail, each answer depends only on the point asked about. It equals the documented objective and constraint (least squares, residual vector, log likelihood, or the model itself) and their derivatives in the free parameters in alphabetical order, with fixed parameters at their values, and the start point and bounds handed over are those of the free parameters in that order.',
 ['schedules', 'fault_sequences', 'inputs', 'configurations'], 'all request sequences of a simulated optimiser for all minimisers, objectives, model kinds, fixed/free patterns, bounds, constraint sets, data shapes and missing components',
 'The tests check a few end results or single derivative evaluations; they do not observe what is sent to the optimiser nor vary the request order.',
 [MI, O, M, F], [('mapping of ordered values onto free parameters', O + ':BaseObjective.__call__'), ('removal of fixed parameters from derivatives', MI + ':GradientMinimizer.resize_jac, HessianMinimizer.resize_hess'), ('translation of constraints', MI + ':ScipyConstrainedMinimize.scipy_constraints'), ('symbolic derivatives with the chain rule', M + ':jacobian_from_model, hessian_from_model')],
 ['arguments and callables received by scipy.optimize.minimize, least_squares, differential_evolution, basinhopping'], [('_invariant_kwargs', 'data and fixed values supplied to every evaluation', O)])

prop('C06', 'Fit results report faithfully what the optimiser ended with',
 'Wherever the optimiser stops, converged or not, a fit result maps every free parameter to the value found for it and every fixed parameter to its set value, and passes on the status message (as text) and the iteration count. The quality measures and, where one is reported, the covariance matrix are those of the objective at exactly those values; when the covariance cannot be computed it is absent or falls back to the Gauss-Newton approximation, never a wrong matrix and never a lost fit.',
 ['fault_sequences', 'inputs', 'configurations'], 'any stop point, success flag, message type, iteration count and output shape of a simulated optimiser for every minimiser; any failure of the matrix inversion',
 'Tests use real optimisers that converge; early stops, failures and odd outputs are not sampled.',
 [MI, R, F, O], [('packing of the optimiser output', MI + ':ScipyMinimize._pack_output'), ('covariance from the Hessian with fall back', F + ':HasCovarianceMatrix'), ('quality measures', R + ':FitResults._gof_qualifiers')],
 ['FitResults.params/value/stdev/variance/covariance/gof/status_message/iterations/str'])

prop('C07', 'Chained minimisers hand over their best point and run in order',
 'In a chain every minimiser runs exactly once, in the given order, with the options addressed to it, and starts from the free-parameter values where the previous one stopped; the first starts from the initial guesses. The result is that of the last stage with the summed iteration count, and if a stage fails its error reaches the caller, no later stage runs, and the next execution starts again from the initial guesses.',
 ['fault_sequences', 'histories', 'configurations'], 'all chains of 1-4 stages including repeated minimisers, fixed parameters, stages that stop early, fail or report no iteration count, repeated executions',
 'Tests execute two chains, without fixed parameters, to convergence.',
 [MI, F], [('hand over of the guess', MI + ':ChainedMinimizer.execute'), ('naming of stage options', MI + ':ChainedMinimizer._make_signature')],
 ['calls received by the optimisers in scipy, FitResults of the chain'], [('_initial_guesses', 'start point kept on a stage', MI)])

prop('C08', 'ODE models return the true trajectory or raise, never partial numbers',
 'Evaluating an ODE model at any increasing set of times, or a single time, on either or both sides of the initial point and with or without it, returns the solution of the initial value problem at exactly those times and in that order, whatever was evaluated before. If the integration fails in either direction an error is raised, and neither an evaluation nor a fit ever returns numbers from a failed or partial integration.',
 ['fault_sequences', 'inputs', 'histories'], 'all query sequences over linear and nonlinear systems with known solutions, with integrator failures and right-hand-side errors injected in the forward or backward leg of any evaluation',
 'Tests evaluate a handful of systems that integrate successfully; a failing backward or forward leg is never produced.',
 [M, F], [('time axis split at the initial point', M + ':ODEModel.eval_components'), ('integrator status check', M + ':ODEModel.eval_components')],
 ['model(t=..., ...) output or exception; Fit.execute on ODE models'])

prop('C09', 'Pickled objects restored in another process behave identically',
 'A parameter, model, objective, minimiser, fit or fit result that is pickled at any moment of its life (before first use, after evaluation, in the middle of a fit, after it) and restored in a freshly started process gives the same evaluations, derivatives, fit results and reported quantities as the original. Pickling leaves the original unchanged.',
 ['crash_points', 'histories', 'configurations'], 'any snapshot instant, any object kind, any hash seed of the restoring process, repeated pickle round trips',
 'The pickle tests round-trip inside one process right after construction and mostly compare attributes.',
 [A, M, O, MI, R], [('state of symbols', A + ':Argument.__getstate__'), ('dropping of compiled members', M + ':BaseModel.__getstate__'), ('rebuilding of minimisers', MI + ':BaseMinimizer.__setstate__'), ('rebuilding of results', R + ':FitResults.__setstate__')],
 ['behaviour of pickle.loads(...) in a new interpreter'])

prop('C10', 'Work farmed out to worker processes equals serial work',
 'When whole fits, or the objective evaluations of a population-based minimiser, are sent to worker processes, the results equal those of doing the work serially, whichever worker gets which task, in whatever order tasks complete, and when tasks are repeated because a worker died.',
 ['schedules', 'fault_sequences'], 'all assignments of tasks to workers, completion orders, duplicated deliveries and worker crashes followed by retry on a fresh worker',
 'One test uses a pool in a fixed configuration with identical parameter settings, on whatever schedule the operating system produces.',
 [MI, F, A, O], [('objectives and fits carry all they need when pickled', O + ', ' + MI + ':BaseMinimizer.__getstate__'), ('options passed through to the minimiser', MI + ':DifferentialEvolution.execute')],
 ['FitResults received back from the workers'])

prop('C11', 'Orderings and results do not depend on hash order',
 'The order of parameters, variables, signatures, components and printed text of a model, and every number computed with it, are the same in every interpreter session, whatever the string-hash seed and whatever order the model dictionary, data keywords and constraints were supplied in. Components given as an unnamed list keep the order of that list.',
 ['configurations', 'schedules'], 'all hash seeds and insertion orders for models with several interdependent components and parameters',
 'The test suite runs with one fixed hash seed and checks a few fixed orders.',
 [M, S, F, A], [('alphabetical sorting', M + ':BaseModel._init_from_dict, ' + S + ':seperate_symbols'), ('topological evaluation order', M + ':BaseModel.ordered_symbols')],
 ['params, independent_vars, dependent_vars, signature, str, outputs and fit results in processes with different hash seeds'])

prop('C12', 'Results do not depend on what ran earlier in the process',
 'Evaluating a model or executing a fit gives the same answer in a fresh process as after any history of other work in the same process: other models and fits using the same names, failed operations, restored pickles, and symbolic caches that are warm, evicted or cleared at any moment. A model or fit already built is not affected by work on others.',
 ['histories', 'fault_sequences'], 'all sequences of declarations, evaluations, fits, failures, pickling and cache clearing, with names reused between projects',
 'Tests share one process but only assert on their own fixed sequence; cache eviction and name reuse are not varied.',
 [A, S, PR, M, O], [('symbols are cached by name in sympy', A + ':Argument.__new__'), ('members compiled per instance', S + ':cached_property'), ('process-wide printer patches', PR)],
 ['results of the same operation with and without history'], [('sympy cache', 'process-wide cache of symbols and expressions', 'sympy.core.cache')])

prop('C13', 'Interactive guessing keeps sliders, parameters and curves consistent',
 'After any sequence of slider moves, redraws and repeated or failing updates in the interactive guess window, every parameter of the model holds the position of its slider, which never leaves its range, and after an update that succeeded the drawn curves are the model evaluated at exactly those values. Opening the window changes no parameter that lies within its slider range, and a fit executed afterwards starts from the guessed values.',
 ['schedules', 'histories', 'fault_sequences'], 'all sequences of simulated pointer and programmatic slider events, figure draws, model failures during an update, and fits in between, for one- and multi-dimensional and ODE models',
 'Tests move one slider once.',
 [IG, F], [('slider callback writes back all values', IG + ':InteractiveGuess._update_plot'), ('evaluation on the plotting grid', IG + ':InteractiveGuess._eval_model')],
 ['Parameter.value, slider positions, line data on the axes'])

prop('C14', 'Stochastic fits are reproducible by seed and stay inside the bounds',
 'A fit with a stochastic minimiser and an explicit seed gives the same result whatever random numbers were drawn before or are drawn by other code meanwhile, and symfit itself never reseeds or replaces the process-wide random state. Whatever the random stream and wherever the search is stopped, reported values of bounded parameters lie within their bounds and fixed parameters keep their value, for every minimiser that takes bounds (for trust-constr, whose iterates may leave them in mid-search, where it converged).',
 ['schedules', 'histories', 'fault_sequences'], 'all seeds, interleaved draws from the global generator, early stops, bounds and fixed patterns',
 'Tests use one or two seeds and check convergence.',
 [MI, F], [('bounds of free parameters', MI + ':BoundedMinimizer.bounds'), ('options including the seed are passed on', MI + ':DifferentialEvolution.execute, BasinHopping.execute')],
 ['FitResults.params; numpy.random.get_state()'])

prop('C15', 'Fitting never modifies objects that belong to the caller',
 'Whatever sequence of fits and evaluations is run with them, successful, failing or interrupted, the data arrays, model dictionaries, constraint lists, option dictionaries, minimiser lists and Parameter objects supplied by the caller stay exactly as they were. Sharing such an object between several fits therefore gives each fit the result it has with a private copy.',
 ['histories', 'fault_sequences'], 'all sequences of fits sharing inputs, over all minimisers and option styles, with faults at arbitrary instants',
 'Tests give each fit fresh literals and never look at the inputs again.',
 [F, MI, M, O], [('data are copied into a dictionary of the fit', F + ':TakesData.__init__'), ('options are forwarded', MI + ':TrustConstr.execute, BasinHopping.execute'), ('model dictionaries are copied', M + ':BaseModel._init_from_dict')],
 ['deep snapshot of every caller-owned object before and after; FitResults'])

prop('C16', 'Executing a fit uses the current settings of its parameters',
 'A fit that is executed repeatedly gives, on every execution, the result of a newly built fit with the same minimiser and objective and with the guess, bounds and fixed flag its parameters have at that moment, and the reported value of a fixed parameter is the value used in the fit. Earlier executions, successful or failed, leave no influence.',
 ['histories', 'fault_sequences'], 'all sequences of changes to value, min, max and fixed between executions (failed ones included), over all minimisers and objectives',
 'Tests set parameters up once, before the fit is built.',
 [MI, O, F], [('guesses and bounds are read at execution time', MI + ':BaseMinimizer.initial_guesses, BoundedMinimizer.bounds'), ('values of fixed parameters are added to each evaluation', O + ':BaseObjective._invariant_kwargs')],
 ['FitResults of each execution'], [('_invariant_kwargs', 'remembered fixed values', O), ('params/_fixed_params', 'remembered free/fixed split', MI)])

PURE = 'A pure function of its input: no schedule, clock, fault, history or process boundary enters, so a simulator has nothing to decide. '
prop('C17', 'Wrongly specified models and data are rejected',
 'Models with parameters in the role of variables, constraints on unknown parameters or of unsupported type, missing or surplus data, and bounds with min above max raise an error at construction instead of producing a fit.',
 ['inputs'], 'all malformed inputs', 'A handful of malformed inputs are tested.', [M, F, A, S], [('construction-time checks', M + ':BaseModel._init_from_dict, as_constraint')], ['constructors'])
prop('C18', 'Uncertainties follow the documented treatment of sigma',
 'With absolute sigma the parameter uncertainties scale with the supplied standard deviations; without sigma or with absolute_sigma=False they are invariant under a common scaling of sigma and are estimated from the residuals.',
 ['inputs'], 'all models, data and sigmas', 'Tests compare a few data sets to curve_fit.', [F], [('covariance scaling', F + ':HasCovarianceMatrix._covariance_matrix')], ['FitResults.stdev'])
prop('C19', 'A converged constrained fit satisfies its constraints and bounds',
 'When a constrained minimiser reports success, equality and inequality constraints and bounds hold at the result within the solver tolerance.',
 ['inputs'], 'all problems', 'Tests check a dozen problems.', [MI, F], [('translation of constraints', MI)], ['FitResults'])
prop('C20', 'Ready-made distributions are normalised densities',
 'Gaussian, bivariate Gaussian and exponential expressions are non-negative and integrate to one for all admissible parameters.',
 ['inputs'], 'all parameters', 'Tests integrate symbolically for symbols only.', ['symfit/distributions.py'], [('closed forms', 'symfit/distributions.py')], ['expressions'])
prop('C21', 'Parameter and variable factories apply per-symbol settings',
 'Creating several parameters at once gives each its own value, bounds and fixed flag in the given order, and rejects sequences of the wrong length.',
 ['inputs'], 'all name lists and settings', 'Tests cover a few combinations.', [S, A], [('parameters()', S)], ['Parameter attributes'])
prop('C22', 'The default minimiser and objective fit the problem given',
 'Without explicit choice, constraints select a constrained minimiser, bounds a bounded one, a model without data is minimised directly, and everything else is least squares.',
 ['inputs'], 'all problem set-ups', 'Tests cover the main cases.', [F], [('selection', F + ':Fit._determine_minimizer, _determine_objective')], ['Fit.minimizer, Fit.objective'])
prop('C23', 'Models compare equal exactly when they define the same components',
 'Two models with the same dependent variables and algebraically equal expressions compare equal, others do not, and negating a model twice gives an equal model.',
 ['inputs'], 'all pairs of models', 'Tests compare a few pairs.', [M], [('__eq__, __neg__', M)], ['==, -model'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            fh.write(json.dumps(p) + '\n')
    print(len(P))
