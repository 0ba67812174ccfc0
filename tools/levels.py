"""level and note of each property for MANIFEST.json"""
_R = ('Real arithmetic in place of floating point; numpy/scipy functions by their documented meaning (assumed contracts, listed in the '
      'evidence). Executable contract on generated inputs as bounded stand-in, not counted as proved.')
_S = ('Python semantics by execution of the real source under symbolic values; assumptions listed in the evidence. Executable contract on '
      'generated inputs as bounded stand-in, not counted as proved.')
LEVELS = {
    'C01': ('proof', 'Parser methods for expressions (parser.py), syntax nodes and the evaluator (base.py): one contract per method, for all '
                     'token sequences and all trees. ' + _S),
    'C02': ('proof', 'Every scanning method of lexer.py with loop invariants and variants, for all texts. ' + _S),
    'C03': ('proof', 'dynamic_func, its substitution and evaluation, vectorize_functions, DynamicRepr for all trees, tables and scopes. ' + _S),
    'C04': ('proof', 'steady_func, its substitution and evaluation, SteadyRepr; frame condition on the equations. ' + _S),
    'C05': ('proof', 'ModelCalibration and the order of solving (loop invariants over a definition graph of any size), ASTSubstitution. ' + _S),
    'C06': ('proof', 'LeadLagCounter, set_lead_lags, VariableIndexManager, VariableTyper, index functions, for any number of variables. ' + _S),
    'C07': ('proof', 'ModelJacobian, ModelHessian, SteadyJacobian for any number of equations and columns; that autograd differentiates is '
                     'assumed. ' + _R),
    'C08': ('proof', 'Shocks block of the factory, StochVar, _create_stoch_vars, _define_sigma for any number of shocks. ' + _S),
    'C09': ('proof', 'State space, solve_first_order and its parts as matrix identities over sets of variables of any size. ' + _R),
    'C10': ('proof', 'StateSpace.verify, rank_condition, eigenvalue count, partitioned_qz for any size. ' + _R),
    'C11': ('proof', 'SecondOrderSolver and solve_ghxx/ghxu/ghuu/del2 as tensor identities for any size. ' + _R),
    'C12': ('proof', 'generalized_sylvester with the invariant of its block substitution for any size; the induction over the blocks '
                     'is stated, not machine checked. ' + _R),
    'C13': ('proof', 'simulate, its loops and initial point, Model.simul paths, for any horizon. ' + _R),
    'C14': ('proof', 'impulse_response against the contract of simulate. ' + _R),
    'C15': ('proof', 'mean, cov, var, std, corr, autocov, autocorr, kalman_transition, sigma of the state, with the loop over lags. ' + _R),
    'C16': ('proof', 'var_decomp, its loop over shocks and the selection of names. ' + _R),
    'C17': ('proof', 'binding.py: hypothesised paths, update of guesses, search with one and two constraints, inputs, conditions, solution; '
                     'a window without convergence carries no claim. ' + _R),
    'C18': ('proof', 'Semantic analyser, factory, outline and the file grammar of the parser, statement by statement. ' + _S),
    'C19': ('proof', 'copy, regimes, alteration methods, update and the properties that rebuild. ' + _S),
    'C20': ('proof', 'Simulation.corr, autocorr and their checks for any number of periods and columns. ' + _R),
    'C21': ('proof', 'steady.py: objective, starting point, options, choice of the algorithm (by cases of the method), stored results, for models of any '
                     'size; that scipy minimises is assumed. ' + _R),
    'C22': ('proof', 'Tables of io/summary.py (first and second order, statistics, model, _summarize_array) over sets of variables and shocks of any '
                     'size, any digits and threshold; at least one state and one shock (without: run-time contract only). ' + _R),
    'C23': ('proof', 'Model.from_path with the files and examples behind it (opaque texts and names, by cases of the shape of the path), solve, solution and '
                     'its orders, the methods and statistics that hand on (by cases of which arguments are given, values opaque). ' + _S),
}
