import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
TOY="The 10 stable tests compare first-order policy matrices of five fixed models with stored numbers; "
p("C01","Expression text evaluates to its conventional arithmetic value",
 "Evaluating any well-formed arithmetic expression under any assignment of numbers to its names gives the conventional value: parentheses and function application bind tightest, then power (right-associative), then unary sign, then multiplication and division, then addition and subtraction (both left-associative), then a single comparison; a sign directly after another operator applies to the operand that follows it. This is the same reading for free-standing expressions and for expressions inside a model file. Text that is not a well-formed expression (missing operand, unbalanced parenthesis, leftover text, unbound name) is rejected with an exception and never silently truncated or reinterpreted.",
 ["inputs"],"every expression tree over the supported operators and functions, every rendering of it as text, every assignment of real numbers to its names; every malformed token sequence",
 TOY+"no test parses an expression on its own, and the grammar is infinite.",
 ["pynare/parsing/parser.py","pynare/parsing/base.py","pynare/parsing/api.py","pynare/parsing/ast.py"],
 [("recursive-descent grammar: one method per precedence level","pynare/parsing/parser.py BaseParser.atom/call/exponent/term/expr/comp_expr and DynareParser.matom..mexpr"),("structural evaluator","pynare/parsing/base.py _BaseEvaluator.visit_*")],
 obs=["pynare.parsing.evaluate(text, scope)","Model equations' residuals"])
p("C02","Comments and layout never change what a model file says",
 "Inserting, removing or changing white space, line breaks, single-line comments and multi-line comments between the words of a model file or expression never changes the sequence of words (names, numbers, operators, keywords, strings) that is read from it. Every word is read with exactly its own spelling or numeric value, and reading any finite text terminates, either with the words followed by an end mark or with a syntax error for a character outside the language or a malformed word (an unclosed string, a number with two points, a lone point).",
 ["inputs"],"every finite text; every placement of blanks, line breaks and both comment forms, including at the very end of the file and directly next to one another",
 TOY+"the five model files contain a handful of comment placements.",
 ["pynare/parsing/lexer.py","pynare/parsing/dynare.py","pynare/parsing/base.py"],
 [("character scanner with comment skipping","pynare/parsing/lexer.py BaseLexer.next_token / DynareLexer.skip_*")],
 [("token_stream","words read so far","BaseLexer.tokenize")],obs=["lexer.token_stream","Model.from_path"])
p("C03","Model equations' dynamic residuals are the equations as written",
 "For every model, the dynamic residual of equation i evaluated at a vector of variable values equals left side minus right side of the i-th equation (or the expression itself when there is no equals sign), where each endogenous variable dated at the previous, current or next period and each shock reads its own entry of the vector, and each parameter and model-local name takes its calibrated value. The vector's entries are ordered: lagged variables, current variables, leading variables, each in declaration order and only those that appear, followed by the shocks in declaration order.",
 ["programs","inputs"],"every model (any equations, any subset of variables dated -1, 0, +1, any parameters and local names) and every real vector of the right length",
 TOY+"they exercise five equation systems at one point (the steady state) only.",
 ["pynare/core/expressions.py","pynare/parsing/base.py","pynare/parsing/factory.py","pynare/parsing/parser.py","pynare/core/variables.py"],
 [("parameter substitution into the syntax tree","pynare/core/expressions.py _DynamicSubsitution, pynare/parsing/base.py _ASTSubstitution"),("binding of dated names to vector positions","pynare/core/expressions.py dynamic_func / DynamicFunc")],
 obs=["model.dynamic_repr(x)"])
p("C04","Steady-state residuals drop time subscripts and shocks and nothing else",
 "For every model, the steady-state residual of equation i evaluated at a vector of endogenous values equals left side minus right side of the i-th equation with every dated occurrence of a variable replaced by that variable's entry, every shock replaced by zero and every parameter and model-local name by its calibrated value. Compiling the steady-state or dynamic form never alters the model's own equations.",
 ["programs","inputs"],"every model and every real vector with one entry per endogenous variable",
 TOY+"all five have the zero vector or constants as steady state.",
 ["pynare/core/expressions.py","pynare/parsing/base.py"],
 [("steady-state substitution","pynare/core/expressions.py _SteadyStateSubstitution, SteadyFunc, steady_func")],
 obs=["model.steady_repr(x)"])
p("C05","Calibration solves parameter definitions in dependency order",
 "For every set of parameter definitions (numbers, texts or syntax trees that refer to one another), the calibrated value of each parameter equals its defining expression evaluated at the calibrated values of the parameters it mentions, whatever the order in which the definitions are given. If the definitions are circular the calibration raises its calibration error rather than returning values, and changing one definition afterwards updates every parameter that depends on it.",
 ["inputs","histories"],"every finite dependency graph of definitions, every permutation of their order, every sequence of reassignments",
 TOY+"their parameter blocks are straight-line and already ordered.",
 ["pynare/core/variables.py"],
 [("precedence by iterated relaxation","pynare/core/variables.py order_precedence, solve_calibration"),("recomputation on assignment","ModelCalibration.__setitem__")],
 obs=["model.params[...]","ModelCalibration(...)"])
p("C06","Timing classification partitions the variables and indexes them consistently",
 "For every model, each endogenous variable's recorded dates are exactly those at which it occurs in the equations, and the variables split exactly into static, purely backward, mixed and purely forward ones accordingly, with the counts agreeing with the lists. The decision-rule ordering lists static, then purely backward, then mixed, then purely forward variables, each in declaration order; it is a permutation, the declaration ordering is its inverse, and the dated column positions reported for any class are the columns of that class's variables at that date in the requested ordering.",
 ["programs"],"every assignment of dates -1/0/+1 to every number of declared variables, in every declaration order; variables dated further away or never are rejected",
 TOY+"five incidence patterns.",
 ["pynare/core/variables.py"],
 [("lead-lag incidence matrix and masks","pynare/core/variables.py VariableIndexManager, VariableTyper, TimedLLX"),("occurrence counting","LeadLagCounter, read_lead_lags, set_lead_lags")],
 [("llx","lead-lag incidence: column number of each variable at each date","VariableIndexManager")],obs=["model.indexes","model.state_vars and sibling lists"])
p("C07","Derivative arrays hold the derivatives of the equations at the steady state",
 "The model Jacobian's entry (i, j) is the partial derivative of equation i's dynamic residual with respect to the j-th entry of the residual's argument vector, and the Hessian's row i is the row-major flattening of equation i's matrix of second partial derivatives, both evaluated with every dated variable at its steady-state value and every shock at zero. The steady-state Jacobian is the derivative of the static residuals in the same sense.",
 ["programs"],"every model with differentiable equations",
 TOY+"a transposed or misplaced entry shows only if a stored policy number depends on it; Hessians are not tested at all.",
 ["pynare/core/linearizing.py","pynare/core/expressions.py","pynare/core/variables.py"],
 [("row-by-row assembly of automatic derivatives","pynare/core/linearizing.py Linearization.array, ModelHessian.array, Linearization.ss")],
 obs=["model.jacobian.array","model.hessian.array"])
p("C08","The shock covariance matrix is the one declared",
 "For every set of shock declarations, the shock covariance matrix is square and symmetric over the shocks in declaration order; its diagonal holds the declared variances (the square of a declared standard error, one when a shock is undeclared), each declared covariance appears at both symmetric positions, each declared correlation appears as the correlation times the product of the two standard deviations, and every other entry is zero.",
 ["inputs"],"every number of shocks and every consistent set of variance, standard-error, covariance and correlation declarations, in any order",
 TOY+"none declares a covariance or correlation, and first-order policies do not depend on the matrix.",
 ["pynare/core/generic.py","pynare/parsing/factory.py","pynare/parsing/parser.py","pynare/core/variables.py"],
 [("assembly of the matrix","pynare/core/generic.py DynamicModel._define_sigma"),("reading of the shocks block","pynare/parsing/factory.py visit_ShocksBlock, pynare/parsing/parser.py shock*")],
 obs=["model.sigma"])
p("C09","The first-order policy satisfies the linearised equilibrium equations",
 "Whenever the first-order solution is returned, substituting it for current and next-period variables in the model's equations linearised at the steady state leaves a zero residual for every value of the lagged state and every current shock. The policy's rows follow the decision-rule ordering, its state columns the backward-looking variables in that ordering, and its shock columns the declaration order, and the state transition it implies has only non-explosive eigenvalues.",
 ["programs"],"every model in which each endogenous variable appears at the current date and the Blanchard-Kahn conditions hold; any mix (including none) of static, purely backward, mixed and purely forward variables; any number of shocks",
 TOY+"five models; stored numbers, not the defining equations.",
 ["pynare/core/solve/first_order.py","pynare/core/solve/statespace.py","pynare/utils/numpy.py"],
 [("Villemot (2011) reduction and generalised Schur decomposition","pynare/core/solve/statespace.py _compute_structural_state_space, pynare/utils/numpy.py partitioned_qz, pynare/core/solve/first_order.py solve_*")],
 obs=["model.solve(order=1).gy / .gu"])
p("C10","Determinacy is decided by the Blanchard-Kahn conditions",
 "Solving a model succeeds only if the number of explosive generalised eigenvalues (modulus above one or infinite, of either sign or complex) equals the number of forward-looking variables and the rank condition holds; otherwise solving raises the model identification error and no solution is returned. The decomposition behind the solution puts every stable eigenvalue before every explosive one and splits exactly at that boundary, reproducing the structural matrices.",
 ["programs"],"every model, with any configuration of positive, negative, complex and infinite eigenvalues (none of modulus exactly one)",
 TOY+"all five are determinate with positive real eigenvalues.",
 ["pynare/core/solve/statespace.py","pynare/utils/numpy.py","pynare/core/solve/first_order.py"],
 [("ordered QZ and partition index","pynare/utils/numpy.py partitioned_qz, find_first"),("order and rank checks","pynare/core/solve/statespace.py StateSpace._run_verification")],
 obs=["model.solve raising ModelIdentificationError","model.statespace.eigen"])
p("C11","The second-order policy satisfies the second-order equilibrium equations",
 "Whenever the second-order solution is returned, the quadratic policy it describes (steady state plus a constant, linear terms, and quadratic coefficients on states, shocks and their cross products) makes the second-order Taylor expansion of the expected model equations vanish: the coefficients on state-state, state-shock and shock-shock products and the constant uncertainty correction are each zero. Rows follow the decision-rule ordering and quadratic columns enumerate products with the first factor slowest.",
 ["programs"],"every determinate model in which each endogenous variable appears at the current date, with any numbers of states and shocks, and any shock covariance",
 TOY+"second-order solutions are never tested.",
 ["pynare/core/solve/second_order.py","pynare/utils/numpy.py"],
 [("assembly of the generalised Sylvester equation and right-hand sides","pynare/core/solve/second_order.py SecondOrderSolver, solve_ghxx, solve_ghxu, solve_ghuu, solve_del2")],
 obs=["model.solve(order=2).ghxx / .ghxu / .ghuu / .del2"])
p("C12","The generalised Sylvester solver solves its equation",
 "For all square matrices A, C of one size and B, D of another and every conforming E for which the equation has a unique solution, the solver returns the X of E's shape with A X B' + C X D' = E (prime denoting transposition), and it leaves its arguments unchanged. Arrays of non-conforming shapes are rejected with a value error.",
 ["inputs"],"all sizes m, n >= 1 (including 1), all real coefficient matrices with a unique solution, including those whose quasi-triangular form has 2x2 blocks in any position",
 TOY+"the solver is not called by any of them.",
 ["pynare/utils/numpy.py"],
 [("QZ reduction and block back-substitution","pynare/utils/numpy.py generalized_sylvester")],
 obs=["return value"])
p("C13","Simulated paths follow the policy functions",
 "A simulation's first row is the given initial point (the steady state by default) and every later row is the solved policy, of the order requested, applied to the previous row's states and the previous row of shocks, for every variable in its declared column; supplied shocks are scaled by a factor whose cross product is the shock covariance matrix, so a unit shock with diagonal covariance is one standard deviation. The number of rows equals the number of shock periods, and the caller's arrays are unchanged.",
 ["programs","inputs"],"every solved model, order one or two, any horizon, any initial point, any shock array, one or several states and shocks",
 TOY+"nothing is simulated.",
 ["pynare/simul.py"],
 [("recursion over periods","pynare/simul.py LinearSimulator._simulate_first_order/_simulate_second_order"),("shock scaling","pynare/simul.py _generate_simul_shocks")],
 obs=["model.simulate(...).paths"])
p("C14","An impulse response is the deviation path after one shock",
 "The impulse response to a named shock of a given size over a given number of periods is the path, in deviation from the steady state, obtained by simulating the solved model from the steady state with only that shock non-zero and only in the first period. The first shock is used when none is named, the first row is zero, the requested number of rows is returned, and an unknown shock name is rejected.",
 ["programs","inputs"],"every solved model, every shock name, size and horizon, either order",
 TOY+"no impulse response is computed.",
 ["pynare/impulse.py","pynare/simul.py","pynare/core/variables.py"],
 [("single-shock simulation","pynare/impulse.py impulse_response")],obs=["model.impulse_response(...).impulse"])
p("C15","Theoretical moments are those implied by the solved policy",
 "The reported covariance matrix is the unconditional covariance of the endogenous variables, in declaration order, under the first-order policy and the shock covariance; variances, standard deviations and correlations derive from it, and the k-th autocovariance (counting from zero) is the covariance of the variables with their own values k periods earlier. The reported mean is the steady state at first order and, at second order, the unconditional mean of the quadratic policy with second moments taken from the linear one.",
 ["programs"],"every solved stationary model, either order, any number of lags, any shock covariance",
 TOY+"moments are not tested.",
 ["pynare/stats/moments.py","pynare/core/solve/statespace.py"],
 [("discrete Lyapunov equation and policy sandwich","pynare/core/solve/statespace.py StateSpace.sigma/kalman_transition, pynare/stats/moments.py")],
 obs=["model.stats.cov() / corr() / autocov() / mean()"])
p("C16","Variance decomposition attributes each variable's variance to the shocks",
 "Entry (variable, shock) of the variance decomposition is the share of the variable's unconditional variance contributed by that orthogonalised shock (lower triangular factor, declaration order); shares are non-negative and each row of the full table sums to one. Selecting variables or shocks by name returns exactly the corresponding rows or columns of the full table in the requested order, and unknown names are rejected.",
 ["programs","inputs"],"every solved stationary model with any number of shocks and any selection of names",
 TOY+"not tested.",
 ["pynare/stats/var.py"],
 [("per-shock Lyapunov solutions","pynare/stats/var.py var_decomp")],obs=["model.stats.var_decomp(...)"])
p("C17","Occasionally binding solutions satisfy the regime in force at every date",
 "When the occasionally binding algorithm converges, each period of the returned path satisfies the linearised equations of the regime the constraints place it in (including that regime's constant at the reference steady state), given the previous period, the current shock and the continuation path expected after it, and the regime assignment is consistent with the constraints. Without a binding episode the path is exactly the reference model's first-order policy, and columns follow declaration order.",
 ["programs","inputs"],"every pair (or quadruple) of regimes over one set of variables, every shock sequence, initial point and number of constraints (one or two)",
 TOY+"the algorithm is not run by any test.",
 ["pynare/core/solve/binding.py","pynare/regimes.py"],
 [("backward recursion of time-varying decision rules","pynare/core/solve/binding.py _simulate_hypothesized_paths*, _occbin_partitioned_jacobian, _translate_ss, _locate_regime_changes"),("guess-and-verify iteration","solve_occbin_*")],
 obs=["model.solve(constraint=...).paths"])
p("C18","Ill-declared models are rejected and well-declared ones accepted",
 "Reading a model file raises an error when a name is declared twice, an equation or assignment uses an undeclared name, a parameter is dated out of period, a value is assigned to a non-parameter, an initial or terminal value is given to something that is not endogenous, or a shock is declared for something that is not exogenous. A file free of these faults is accepted and yields exactly the declared variables, parameters, equations, boundary values and shocks, in order, whichever optional blocks it leaves out.",
 ["programs"],"every model file in the supported sub-language",
 TOY+"all five are well declared.",
 ["pynare/parsing/semantics.py","pynare/parsing/factory.py","pynare/parsing/parser.py"],
 [("scoped symbol table walk","pynare/parsing/semantics.py DynareSemanticAnalyzer"),("outline construction","pynare/parsing/factory.py DynareModelFactory")],
 obs=["Model.from_path / read_model"])
p("C19","Models and regimes are independent and reflect their own definitions",
 "A copy of a model has the same equations, variables, parameters, local names, shocks and boundary values as the original, and altering either afterwards never changes what the other reports. The alternative regimes built from a model differ from it only in the replaced equations and leave the original model untouched, and after equations, variables or parameters are added through the model's own methods every derived quantity is recomputed from the new definitions.",
 ["histories","programs"],"every model and every sequence of copy, add, replace and query operations",
 TOY+"no model is copied or altered.",
 ["pynare/core/generic.py","pynare/regimes.py","pynare/core/model.py"],
 [("copy constructor","pynare/core/generic.py DynamicModel.copy"),("alteration flag and rebuild","DynamicModel.update and dependent properties"),("regime construction","pynare/regimes.py RegimeSwitchingModel")],
 obs=["model.copy()","model.add_*"])
p("C20","Sample moments of a simulation are the textbook sample moments",
 "For every simulated path and every number of dropped initial periods, the reported correlation matrix has entry (i, j) equal to the sample covariance of columns i and j divided by the product of their sample standard deviations over the retained periods, so it is symmetric with unit diagonal. The k-th autocorrelation is the average of the products of values k periods apart, centred at the retained mean, over the periods minus k available pairs, divided by the retained variance; impossible drops or lag counts are rejected.",
 ["inputs"],"every path array (any length and number of variables), every drop and lag count",
 TOY+"not tested.",
 ["pynare/simul.py"],
 [("centred cross products","pynare/simul.py ModelSimulation.corr/autocorr, _drop_simulated_paths")],
 obs=["simulation.corr()","simulation.autocorr()"])
p("C21","The reported steady state is the algorithm's answer to the static equations",
 "The steady state that a model reports is the point at which the chosen algorithm, started from the declared initial values in declaration order, left the sum of squared static residuals of the model's present equations and parameters; so whenever the algorithm succeeds with zero residuals the values solve every static equation. Options given by the caller reach the algorithm, its whole result (success flag included) stays available and agrees with the values, the values asked for without a choice come from the default algorithm, and a method that does not exist or is not implemented is refused instead of replaced by another.",
 ["programs","inputs"],"every model, initial guess, method and options",
 TOY+"five models whose steady state is known in advance.",
 ["pynare/core/steady.py"],
 [("objective, starting point, choice of the algorithm, storing of its result","pynare/core/steady.py SteadyState, _define_simple_least_squares, minimize_*, _SteadyStateManager")],
 obs=["model.ss.values","model.ss.results","model.ss.compute()"])
p("C22","Printed tables show the computed numbers under the right names",
 "The summary of a solution prints, in the row of the steady state, of every lagged state variable and of every shock (for a second-order solution also of every pair of those and of the correction for risk) and under the column of every endogenous variable, that coefficient of the policy function in declaration order, rounded to the chosen digits. The summaries of a model and of its statistics print counts, eigenvalues by modulus, shock covariances, parameter values, moments, correlations, autocorrelations and variance shares next to the names they belong to. With a threshold, only rows (second order) or columns (first order) whose numbers are all below it in absolute value are left out. A summary of a solved model does not fail, whatever the model lacks (parameters, shocks, nonzero numbers).",
 ["programs"],"every solved model, either order, any digits and threshold, any selection of features",
 TOY+"summaries are not tested.",
 ["pynare/io/summary.py"],
 [("stacking, reordering and labelling of the policy arrays, selection by threshold, tables of text","pynare/io/summary.py FirstOrderSummary, SecondOrderSummary, ModelSummary, ModelStatisticsSummary, _summarize_array")],
 obs=["solution.summary()","model.summary()","model.stats.summary()"])
p("C23","A model is the one its path names and its methods run what they stand for",
 "Model.from_path, given a str or a pathlib.Path, makes the model that the text of the named file defines, whatever its directory or suffix; when there is no such file it makes the packaged example of that name (with or without suffix), from whatever directory Python runs in, and raises FileNotFoundError when there is none; the model is named after the file, without directories and suffixes. Model.solve runs the algorithm of the order asked for (second order by default, others than 1 and 2 are rejected), or the one for constraints, with every argument the caller gave (regimes, shocks, initial point, periods), returns its solution and keeps it; first_order_solution is the first-order solution of the model whatever was solved before. simulate, impulse_response, summary and each statistic give what the function of that name gives for that model and those arguments, by position or by name.",
 ["inputs","histories"],"every path, file and working directory; every model, order, constraint and selection of arguments, whatever was solved before",
 TOY+"files are read from one directory only, and only the first order is solved for.",
 ["pynare/core/model.py","pynare/io/files.py","pynare/examples/__init__.py","pynare/stats/stats.py"],
 [("look-up of files and examples","pynare/core/model.py Model.from_path, pynare/io/files.py, pynare/examples/__init__.py ExampleRegistry"),("choice of the algorithm, the solution kept","Model.solve, solution, first_order_solution"),("forwarding","Model.simulate, impulse_response, summary, stats, pynare/stats/stats.py ModelStatistics")],
 obs=["Model.from_path(...)","model.solve(...)","model.stats.*"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
