#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
S = "src/satisfy/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Every solution yielded satisfies the whole model",
     "Every assignment the solver yields gives exactly the model's decision variables (none missing, no parameters) a value from their declared domains, and satisfies every constraint of the model and every additional constraint passed to the solve call. This holds for every variable-selection policy, with constraint compilation on or off.",
     ["inputs", "configurations"], "all finite models (domains, expression / all-different / constant / user-defined constraints, parameters), all policies, compile on/off",
     "No existing test runs the solver at all; soundness quantifies over all models and configurations.",
     ["solver.py", "constraint.py", "model.py"],
     [("pruning of a variable's domain against the constraints it takes part in", "solver.py:Solver.solve"),
      ("single-variable constraints folded into the domain", "solver.py:Solver._setup"),
      ("partial-assignment check", "constraint.py:Constraint.unsatisfied")],
     ["Solver.solve(...)", "ModelSolver.__iter__"],
     [("domain stack", "remaining candidate values of every bound variable", "solver.py:Solver.solve")])
prop("C02", "Enumeration is complete, free of duplicates, and ends",
     "Exhausting a solve that has neither limit nor timeout yields every assignment satisfying the model exactly once and then ends, under every policy and with compilation on or off. A model with no satisfying assignment (including one marked unsolvable) yields nothing; a model without decision variables and without a violated constraint yields exactly the empty assignment.",
     ["inputs", "configurations"], "all finite models; all policies; compile on/off",
     "No test enumerates solutions; completeness is a statement about the whole assignment space of every model.",
     ["solver.py", "model.py", "constraint.py"],
     [("backtracking stack and re-computation of exhausted domains", "solver.py:Solver.solve"),
      ("pairwise all-different pruning", "solver.py:Solver.solve")],
     ["Solver.solve(...)", "ModelSolver.__iter__"])
prop("C03", "Search configuration and declaration order never change the solution set",
     "The set of solutions of a model is the same under every variable-selection policy, with compilation on or off, through a Solver or a ModelSolver. It does not depend on the order in which variables, domain values and constraints are declared, on the container type of the domains, or on stating a constraint twice, and renaming variables only renames them in the solutions.",
     ["inputs", "configurations", "programs"], "all models, all 8 policies x compile on/off, all permutations / renamings / domain containers",
     "Tests run no solve; equality across configurations quantifies over models and configurations together.",
     ["solver.py", "model.py"],
     [("variable ordering per policy", "solver.py:Solver.solve"), ("constraint compilation", "constraint.py:ExpressionConstraint.compile")],
     ["Solver.solve(...)", "ModelSolver(...)"])
prop("C04", "A solution limit delivers exactly the first N solutions",
     "With a limit N, a solve yields min(N, total) solutions, and they are the first ones the unlimited solve of the same configuration yields; a limit of 0 yields none, and no limit or an infinite limit (given to the solver or to the solve call) yields all. Once the solve has ended, the statistics count equals the number of solutions delivered and the interrupt reason is 'limit' exactly when N solutions were delivered (no reason otherwise).",
     ["inputs", "configurations"], "all models, limits (0, below, equal to, above the total, infinite), given on the solver or per call",
     "No test uses a limit; boundary behaviour depends on the relation of N to the number of solutions of each model.",
     ["solver.py", "utils.py"],
     [("limit test after each yield", "solver.py:Solver.solve"), ("infinite values normalised", "solver.py:Solver.limit")],
     ["Solver.solve(limit=...)", "Solver(limit=...)", "Solver.get_stats()"])
prop("C05", "A timeout only stops a search that overran, and statistics say so",
     "A timeout stops a solve only after the time spent searching - not counting time the caller holds a yielded solution - has exceeded it, and then promptly; the solutions delivered until then are a prefix of those of the untimed solve. When the solve has ended, the interrupt reason is 'timeout' exactly if it was stopped that way; then, while a solution is held, and after the caller gave up, the reported elapsed time is the time spent searching (again without the caller's time), and the count is the number of solutions delivered.",
     ["inputs", "schedules", "configurations"], "all models, timeouts, and evolutions of the clock during search and between solutions",
     "Depends on how the clock advances relative to search steps; tests neither control the clock nor search.",
     ["solver.py", "utils.py"],
     [("elapsed-time test at each search step", "solver.py:Solver.solve"), ("timer paused while a solution is held", "utils.py:Timer")],
     ["Solver.solve(timeout=...)", "Solver.get_stats()"])
prop("C06", "A solution reported optimal is optimal",
     "Asking for the optimal solution of a feasible model under a minimise or maximise objective, with no limit and no timeout, returns a feasible solution whose objective value is the best over all feasible assignments, and says it is optimal; for an infeasible model it returns no solution and does not claim optimality. When a limit or a timeout interrupts the search it never claims optimality and what it returns is still feasible.",
     ["inputs", "configurations"], "all models, objectives over any subset of variables (including a single one), senses, policies, compile on/off, limits, timeouts",
     "No test optimises anything; optimality compares against every feasible assignment.",
     ["solver.py", "objective.py"],
     [("bound constraint tightened after each solution", "objective.py:MinMaxConstraint.set_bound"), ("optimality flag", "solver.py:Solver.optimal_solution")],
     ["Solver.optimal_solution(...)"],
     [("bound", "best objective value so far", "objective.py:MinMaxConstraint")])
prop("C07", "Optimisation yields strictly improving solutions up to an unbeatable one",
     "Each solution yielded during optimisation is feasible and strictly better than the previous one in every objective, for one objective or a list of several (mixing minimise and maximise), under a limit as well. When the optimisation runs to its end, no feasible assignment is strictly better than the last solution in every objective, and something is yielded whenever the model is feasible.",
     ["inputs", "configurations"], "all models, 1..3 objectives, senses, policies, compile on/off, additional constraints",
     "No test optimises; the claim ranges over whole solution sequences of all models.",
     ["solver.py", "objective.py"],
     [("bound constraints re-checked against the current bound", "solver.py:Solver.solve"), ("set_bound", "objective.py:MinMaxConstraint.set_bound")],
     ["Solver.optimize(...)"])
prop("C08", "Operator-built expressions evaluate like integer arithmetic",
     "An expression built with Python operators (+, -, *, / and its reflected form, %, **, unary + and -, abs, comparisons, & and |, built-in sum) from variables, parameters, constants and plain integers on either side evaluates, for any integer substitution on which it is defined, to the value ordinary Python arithmetic gives, with / meaning floor division and & and | meaning 'and' and 'or'. The simplifications made while building never change that value.",
     ["inputs", "programs"], "all expression trees over integers of any size and sign and all substitutions where every subexpression is defined",
     "Tests evaluate 8 fixed expressions, and only in compiled form.",
     ["expression.py"],
     [("constant folding and flattening of sums and products", "expression.py:_make_accumulate"), ("constant operators", "expression.py:Const")],
     ["Expression operators", "Expression.evaluate"])
prop("C09", "Compiled expressions agree with interpreted ones",
     "For every expression and every substitution covering its variables (extra names allowed), the function obtained by compiling the expression gives the same value as evaluating it directly, or both raise the same kind of error. This holds for every nesting of operators, constants of either sign, deep expressions, parameters, and every variable name a model accepts.",
     ["inputs", "programs"], "all expression trees, substitutions and accepted variable names",
     "Tests compile 8 expressions using only * + - and names x, y; rendering is per node type and context.",
     ["expression.py", "constraint.py"],
     [("rendering to Python source", "expression.py:Expression.py_expr"), ("compilation and its fallback", "expression.py:Expression.as_function")],
     ["Expression.as_function", "Expression.compile_py_function", "Expression.evaluate"])
prop("C10", "An expression reports exactly the variables it needs",
     "The variables an expression (or a constraint on it) reports are distinct, occur in it, never include parameters, and suffice to evaluate it: its value depends on no other name in the substitution. The free variables under a substitution are the reported variables the substitution does not bind, and evaluating an arithmetic expression with one of its variables unbound raises an error rather than giving a value.",
     ["inputs", "programs"], "all expression trees and partial substitutions",
     "No test calls vars or free_vars; the solver's scheduling of checks relies on them for every expression shape.",
     ["expression.py", "constraint.py"],
     [("variable collection", "expression.py:Collection.__init__"), ("free_vars", "expression.py:Expression.free_vars"), ("constraint variables", "constraint.py:Constraint.vars")],
     ["Expression.vars", "Expression.free_vars", "Constraint.vars", "Constraint.free_vars"])
prop("C11", "Parameters are read live and are never solved for",
     "A solve or optimisation started after parameters are changed uses their current values, whatever was solved before and whether compilation is on or off, for constraints that also mention at least one variable. Parameters never appear in solutions and a substitution entry with a parameter's name never overrides its value.",
     ["histories", "inputs", "configurations"], "all histories of parameter updates, solves and optimisations on one model with mixed compile settings",
     "Needs sequences of updates and solves; tests have a single fixed parameter evaluated once.",
     ["expression.py", "constraint.py", "solver.py", "model.py"],
     [("parameter value in compiled code", "expression.py:Parameter.py_expr"), ("recompilation at each solve", "solver.py:Solver._setup")],
     ["Parameter.value", "Solver.solve", "Expression.evaluate"],
     [("compiled function of a constraint", "caches parameter values", "constraint.py:ExpressionConstraint")])
prop("C12", "Model building accepts exactly well-formed input and rejections leave no trace",
     "Declaring a variable or parameter with a name that does not start with an ASCII letter or has a non-word character, a name already in use, or (for variables) a repeated domain value raises ValueError; a constraint over undefined variables, or over a parameter taken for a variable, raises ValueError and a non-constraint raises TypeError; in every such case the model's variables, domains and constraints stay as they were. Accepted declarations appear in declaration order with their domains (unnamed ones get fresh names), constantly true constraints are dropped, constantly false ones and marking the model as not solvable make it unsolvable (the mark can be taken back). Optimising in between takes no name a later declaration could ask for.",
     ["histories", "inputs"], "all sequences of valid and invalid model-building calls",
     "No test touches the model class; the claim is over call histories.",
     ["model.py", "constraint.py"],
     [("name and domain validation", "model.py:Model._check_name"), ("constraint admission", "model.py:Model.add_constraint")],
     ["Model.add_*", "Model.variables", "Model.constraints", "Model.solvable", "Model.get_variable", "Model.get_var_domain"])
prop("C13", "Checking a partial assignment never condemns it wrongly",
     "A constraint reports a partial assignment as unsatisfied only if all its variables are bound and it evaluates to false there, so an assignment that leaves one of its variables open is never rejected by it. Its verdict does not depend on names it does not mention, nor on whether it has been compiled, and all-different holds exactly when the values of its distinct variables are pairwise different.",
     ["inputs", "histories"], "all constraints (expression, all-different, constant, user-defined), partial and full assignments, before and after compilation",
     "No test constructs a constraint.",
     ["constraint.py"],
     [("unsatisfied / evaluate", "constraint.py:Constraint.unsatisfied"), ("all-different", "constraint.py:AllDifferentConstraint.evaluate")],
     ["Constraint.unsatisfied", "Constraint.evaluate", "Constraint.free_vars", "Constraint.compile"])
prop("C14", "Solves are independent of what happened before or alongside",
     "Repeating a solve or an optimisation on the same model and solver gives the same results, in the same order for deterministic policies, regardless of earlier solves, optimisations, abandoned or interrupted enumerations, errors raised by user constraints, other enumerations running interleaved on the same model or solver, other models solved with the same solver, or modifications the caller makes to yielded solutions. Solving never changes the model's decision variables, domains or constraints, and constraints and variables added between solves take effect in the next one, while an enumeration under way goes on as it began.",
     ["histories", "schedules"], "all histories of solve / partial consumption / abandon / interleave / optimise / add-constraint / fail operations on shared models and solvers",
     "Requires call histories; no test performs even one solve.",
     ["solver.py", "model.py", "objective.py", "constraint.py"],
     [("per-solve search state", "solver.py:Solver.solve"), ("solver reset", "solver.py:Solver._reset"), ("bound parameters added by objectives", "objective.py:MinMaxConstraint")],
     ["Solver.solve", "Solver.optimize", "ModelSolver.__iter__", "KnapsackOptimizer.__call__"])
prop("C15", "Sudoku grids yielded are valid completions, and all of them are found",
     "Every grid yielded for a 9x9 schema (0 or None for blanks) keeps the given digits and has 1 to 9 once in every row, column and 3x3 block; schemas with contradictory givens yield nothing. With an infinite limit every valid completion is yielded exactly once, by default at most one is, and schemas of the wrong shape or with values outside 0..9/None raise ValueError.",
     ["inputs"], "all schemas, including complete, contradictory, multi-solution and malformed ones",
     "No test covers sudoku; examples hold two puzzles.",
     ["sudoku.py", "solver.py"],
     [("candidate elimination from givens", "sudoku.py:SudokuSolver.__init__"), ("all-different over the free cells of each unit", "sudoku.py:SudokuSolver.__init__")],
     ["SudokuSolver.__iter__"])
prop("C16", "Nonogram solutions match the clues, and every matching picture is found",
     "Every picture yielded for a nonogram has exactly the given runs in each row and column and the given shape, and every picture with those runs is yielded exactly once; unsatisfiable clues yield nothing. In particular every picture is among the solutions of its own clues, blank rows, columns and pictures included.",
     ["inputs", "configurations"], "all clue sets with positive run lengths, all shapes and policies",
     "No test covers nonograms; one default example exists.",
     ["nonogram.py", "solver.py"],
     [("start-position domains and ordering of runs", "nonogram.py:NonogramSolver.__init__"), ("cell equality between row and column coverage", "nonogram.py:NonogramSolver.__init__")],
     ["NonogramSolver.__iter__", "pixmap_to_nonogram"])
prop("C17", "Picture, text and clue conversions are faithful",
     "Converting a rectangular picture to clues gives, for each row and column, the lengths of its maximal runs of filled cells in order; its shape is its number of rows and columns. Rendering a picture as text and reading it back gives the same picture, and reading text treats exactly blanks and underscores (or the characters the caller names instead) as empty, padding short lines with empty cells.",
     ["inputs"], "all rectangular pictures and all text images",
     "No test covers the conversions.",
     ["nonogram.py", "tool/demo_nonogram.py"],
     [("run counting", "nonogram.py:pixmap_to_nonogram"), ("image parsing", "tool/demo_nonogram.py:image_to_pixmap")],
     ["pixmap_to_nonogram", "pixmap_shape", "image_to_pixmap", "pixmap_to_image", "image_to_nonogram"])
prop("C18", "Knapsack answers are feasible and optimal",
     "For integer values, capacities and weights (any signs, any number of dimensions, given as any iterables), the knapsack optimiser returns a selection that respects every capacity, reports the value and weights of exactly that selection, and claims optimality only if no feasible selection is worth more; without limit or timeout it claims it whenever a feasible selection exists and otherwise returns no selection. Ill-shaped weights raise ValueError, non-integer entries TypeError, and asking again gives the same result.",
     ["inputs", "configurations"], "all multidimensional 0/1 knapsack instances incl. negative values and weights, zero items, limits, policies",
     "No test covers knapsack; two example files exist.",
     ["knapsack.py", "solver.py", "objective.py"],
     [("capacity constraints", "knapsack.py:KnapsackOptimizer.__init__"), ("result assembly", "knapsack.py:KnapsackOptimizer.__call__")],
     ["KnapsackOptimizer.__call__"])
prop("C19", "Cryptarithm solutions are exactly the valid digit assignments",
     "The solutions of a cryptarithm are exactly the assignments of pairwise different digits to its letters that make the expression true when each word (letters and digits mixed, upper or lower case) is read as the decimal number obtained by substitution, each assignment once. With leading-zero avoidance on (the default) no word may start with a letter standing for 0; with it off, letters may stand for 0 anywhere. The solver's source is the cryptarithm in upper case, and its expression is true exactly where the cryptarithm is.",
     ["inputs", "configurations"], "all expressions over words with + - * / % and a comparison, leading-zero avoidance on and off",
     "No test covers cryptarithms.",
     ["cryptarithm.py", "solver.py"],
     [("rewriting of words into weighted letters", "cryptarithm.py:CryptarithmSolver.__init__"), ("domains and all-different", "cryptarithm.py:CryptarithmSolver.__init__")],
     ["CryptarithmSolver.__iter__"])
prop("C20", "Graph labelings are exactly the proper ones",
     "For any graph (undirected, directed or multigraph, any hashable nodes, isolated nodes and self-loops included) and distinct labels, the labelings yielded assign a given label to every node, give the two ends of every edge different labels, and every such labeling is yielded exactly once.",
     ["inputs", "configurations"], "all finite graphs, label lists and policies",
     "No test covers graph labeling.",
     ["graph_labeling.py", "solver.py"],
     [("one variable per node, one inequality per edge", "graph_labeling.py:GraphLabelingSolver.__init__")],
     ["GraphLabelingSolver.__iter__"])
prop("C21", "Map colorings color whole regions and separate touching ones",
     "In every coloring of an ASCII map each region (cells of the same character connected horizontally, vertically or diagonally; blanks and dots are background) is drawn in one of the given colors, touching regions (diagonally included) get different colors, and background cells stay blank and the shape of the map is preserved. With an infinite limit every such coloring is yielded exactly once, by default at most one is.",
     ["inputs"], "all ASCII maps, ragged lines included, and color lists",
     "No test covers map coloring.",
     ["tool/ascii_map_coloring.py", "graph_labeling.py"],
     [("flood fill of regions", "tool/ascii_map_coloring.py:AsciiMapColoringSolver.__init__"), ("adjacency between regions", "tool/ascii_map_coloring.py:AsciiMapColoringSolver.__init__")],
     ["AsciiMapColoringSolver.__iter__"])
prop("C22", "Queens boards and the riddle's answer are right and complete",
     "For every board size N, the boards yielded are N by N, hold exactly N queens no two of which share a row, column or diagonal, and all such boards are yielded exactly once. The riddle solver yields exactly one arrangement, which satisfies all of its stated clues.",
     ["inputs", "configurations"], "all board sizes; policies, compile settings and limits",
     "No test covers these solvers.",
     ["tool/queens.py", "tool/einstein_riddle.py", "solver.py"],
     [("diagonal variables", "tool/queens.py:QueensSolver.__init__"), ("riddle constraints", "tool/einstein_riddle.py:EinsteinRiddleSolver.__init__")],
     ["QueensSolver.__iter__", "EinsteinRiddleSolver.__iter__"])
prop("C23", "The command line reports exactly what the solvers find",
     "Every 'satisfy' sub-command, run on a well-formed input file or argument, ends without error and prints the solutions the problem has - all of them, or as many as the limit (explicit, infinite, or the sub-command's default) allows - followed by a summary line with the right count and search time that mentions a limit exactly if it was reached. Options for labels, colors, leading zeros, limits and model display are honoured.",
     ["inputs", "configurations"], "all sub-commands, input files and option combinations",
     "No test runs the command-line tool.",
     ["tool/__init__.py", "tool/demo_sudoku.py", "tool/demo_knapsack.py", "tool/demo_nonogram.py", "tool/demo_queens.py", "tool/demo_cryptarithm.py", "tool/demo_graph_labeling.py", "tool/demo_ascii_map_coloring.py", "tool/demo_utils.py"],
     [("argument parsing", "tool/__init__.py:main"), ("summary line", "tool/demo_utils.py:print_solve_stats")],
     ["stdout and exit status of satisfy.tool.main"])
prop("C24", "The timer accounts for running time and counts exactly",
     "For every sequence of start, stop, abort and queries, the timer's elapsed time is the total time between each start and the matching stop or abort (plus the current run while running), its count is the sum of the counts given to stop (aborts add nothing), its statistics agree with both, and starting a running or stopping a stopped timer raises RuntimeError and changes nothing.",
     ["histories", "schedules"], "all operation sequences and clock evolutions",
     "Stateful behaviour against a clock; no test uses the timer.",
     ["utils.py"],
     [("timer state machine", "utils.py:Timer")],
     ["Timer.start", "Timer.stop", "Timer.abort", "Timer.elapsed", "Timer.count", "Timer.stats"])
prop("C25", "Structural equality of expressions is exact on structure and sound on value",
     "Two expressions built the same way are structurally equal, the relation is symmetric, and two expressions that are structurally equal evaluate to the same value under every substitution. Expressions differing in a variable, constant or operation are not structurally equal.",
     ["inputs", "programs"], "all pairs of expressions, near-identical pairs in particular",
     "No test calls the structural comparison.",
     ["expression.py"],
     [("equals", "expression.py:Collection.equals")],
     ["Expression.equals"])

prop("C26", "Search never extends a partial assignment that is already violated",
     "While searching, a partial assignment that violates a constraint of which all variables are bound, or gives two variables of an all-different constraint the same value, is never extended by a further variable: a user-defined constraint is only evaluated on assignments binding all of its variables that respect every other completely bound constraint but for the variable bound last (during an optimisation also the bound set by the best solution so far). The number of evaluations is within what trying every value below every consistent partial assignment takes. This holds for every policy, with compilation on or off.",
     ["inputs", "configurations"], "all models with user-defined constraints, all policies, compile on/off, plain solves, additional constraints and optimisations",
     "No test runs a search; pruning shows only in which assignments are tried, and losing it turns polynomial searches into exponential ones without changing any result.",
     ["solver.py", "constraint.py"],
     [("values of a variable filtered against the bound ones before descending", "solver.py:Solver.solve"),
      ("pairwise all-different pruning", "solver.py:Solver.solve"), ("objective bound re-checked before descending", "solver.py:Solver.solve")],
     ["Constraint.evaluate of user-defined constraints during Solver.solve / Solver.optimize"])
prop("C27", "Printed expressions, constraints and models denote what they are",
     "The text of an expression (str), read with binary operators in their parentheses, / as floor division, & and | as 'and' and 'or', ^ as 'not', sum([...]) and prod([...]) as sum and product, and parameter names as their values, has the same value as the expression under every substitution for which that is defined, and so has its representation (repr), read as nested calls of the node classes. A constraint prints its expression or its all-different variables, and printing a model lists every variable and parameter in declaration order with its domain, and every constraint once in order.",
     ["inputs", "programs"], "all expression trees, names and models",
     "No test prints an expression; the text depends on every nesting of node types, constants and simplifications.",
     ["expression.py", "constraint.py", "tool/demo_utils.py"],
     [("text of each node type", "expression.py:BinOp.__str__"), ("text of sums and products", "expression.py:Accumulation._as_str"),
      ("model display", "tool/demo_utils.py:print_model")],
     ["str(Expression)", "str(Constraint)", "print_model"])
prop("C28", "Solver settings are honoured, and per-call ones hold for that call only",
     "A solve uses the limit, timeout and variable-selection policy given to the call, otherwise the ones set on the solver last (by construction or assignment, through a ModelSolver as well), otherwise the defaults (none, none, GROUPS); a per-call setting leaves the solver's own settings unchanged, and one changed while an enumeration is under way applies from the next one on. Solutions come in lexicographic order of an ordering of the variables: declaration order for ORDERED, its reverse for REVERSED, smallest or largest domain first for MIN_BOUND and MAX_BOUND, variables in fewest or most relations with others first for MIN_CONSTRAINT and MAX_CONSTRAINT, those in no all-different constraint and then group by group for GROUPS, one drawn at random, each possible, for RANDOM. Something that is not a policy is rejected with TypeError, when a solver is built or the policy assigned, and changes nothing, and infinite limits and timeouts read back as None.",
     ["histories", "configurations", "inputs"], "all histories of construction, assignment, rejected assignment, solves and optimisations with overrides",
     "No test creates a solver; precedence shows over sequences of settings and calls.",
     ["solver.py"],
     [("settings", "solver.py:Solver.__init__"), ("settings of one call", "solver.py:Solver.solve"), ("variable ordering per policy", "solver.py:Solver.solve")],
     ["Solver.solve(...)", "Solver.limit", "Solver.timeout", "Solver.var_selection_policy", "Solver.compile_constraints", "ModelSolver.__iter__"])
prop("C29", "Results are reproducible from one run of the interpreter to the next",
     "The solutions of a model, an optimisation, each of the puzzle solvers and each sub-command, and their order, are the same in every run of the interpreter, whatever its hash seed, for every deterministic policy and, with the random generator seeded alike, for RANDOM; so a limit selects the same solutions every time.",
     ["inputs", "configurations", "schedules"], "all models, puzzles, command lines, policies and limits; all hash seeds",
     "A test runs in one interpreter with one hash seed; the dependence shows only between runs.",
     ["solver.py", "cryptarithm.py", "graph_labeling.py", "nonogram.py", "sudoku.py", "knapsack.py", "tool/ascii_map_coloring.py"],
     [("order of variables and constraints", "solver.py:Solver._setup"), ("order in which letters become variables", "cryptarithm.py:CryptarithmSolver.__init__")],
     ["Solver.solve(...)", "Solver.optimize(...)", "every puzzle solver", "stdout of satisfy.tool.main"])

prop("C30", "Expressions are immutable values that can be shared freely",
     "Building an expression from others (operators on either side, augmented assignment, built-in sum, Sum and Prod of a list), compiling, evaluating, printing, comparing, constraining or solving with it never changes any other expression: each keeps the value, variables and structure it had, whatever is built from it later and however often it is shared. An augmented assignment binds its name to a new expression, and a list handed to Sum or Prod stays the caller's.",
     ["programs", "histories", "inputs"], "all programs that build, share and use expressions, with parameter changes in between",
     "Aliasing shows only in programs that keep using an operand; the tests evaluate each expression once.",
     ["expression.py", "constraint.py"],
     [("flattening of sums and products", "expression.py:_make_accumulate"), ("n-ary nodes", "expression.py:Accumulation.__init__"),
      ("operands of a node", "expression.py:Collection")],
     ["operators of Expression", "Expression.evaluate / vars / as_function", "ExpressionConstraint"])
prop("C31", "Solutions are found on demand",
     "Nothing of a solve or an optimisation is searched before the first solution is requested, the constraint evaluations made until a solution is delivered are the first ones of the whole enumeration whatever is requested afterwards, and none is made once the limit is reached or the caller gives up. So the first solutions of models and puzzles with astronomically many solutions come without dead ends after work proportional to the size of the model, for every policy. Delivered solutions are not kept: an enumeration takes no more memory the longer it goes on.",
     ["inputs", "configurations", "histories"], "all models, policies and numbers of solutions taken; models and puzzles with up to 10^150 solutions",
     "No test enumerates; collecting all solutions before delivering the first gives the same answers on every small example.",
     ["solver.py", "graph_labeling.py", "sudoku.py", "cryptarithm.py", "tool/ascii_map_coloring.py"],
     [("generator of solutions", "solver.py:Solver.solve"), ("generator of improving solutions", "solver.py:Solver.optimize"),
      ("puzzle enumerations", "graph_labeling.py:GraphLabelingSolver.__iter__")],
     ["Solver.solve(...)", "Solver.optimize(...)", "iteration over puzzle solvers"])
prop("C32", "Puzzles honour settings, a given solver and model, and report statistics",
     "A puzzle built with limit, timeout, policy or compilation settings enumerates, every time it is asked, the prefix of its solutions that they allow; one built with a solver or a model of the caller's uses exactly these, so that settings changed later on the solver, and constraints added to the model, take effect on the next enumeration. Puzzles alive at the same time, and several enumerations of one, do not disturb one another. Its statistics are those of the solver: the count is the number of solutions delivered, and the interrupt reason says whether a limit or a timeout ended the enumeration; a knapsack answer is called optimal exactly if neither did and a selection exists.",
     ["configurations", "histories", "inputs"], "all puzzles, settings, histories of changed settings and enumerations, and splits of a puzzle by a variable's values",
     "No test runs a puzzle; the settings pass through several constructors.",
     ["solver.py", "graph_labeling.py", "sudoku.py", "cryptarithm.py", "nonogram.py", "knapsack.py", "tool/ascii_map_coloring.py", "tool/queens.py"],
     [("settings handed on", "solver.py:ModelSolverBase.__init__"), ("statistics", "solver.py:ModelSolverBase.get_stats"),
      ("default limits", "sudoku.py:SudokuSolver.__init__")],
     ["constructors of the puzzle solvers", "ModelSolver.__iter__", "ModelSolver.get_stats", "ModelSolver.solver", "ModelSolver.model", "KnapsackOptimizer.__call__"])

prop("C33", "User-defined constraints and objectives take full effect",
     "A constraint defined by the user restricts every solve and optimisation it is given to (by the model or by the call) exactly by whether its verdict is true or false in Python's sense, also where it rejects partial assignments early, is built out of other constraints, or mentions only one variable or none. An objective defined by the user is asked for one constraint per optimisation and told, with that constraint, of every solution exactly once and before the caller gets it; each solution satisfies the constraint as it stands then, and a constraint that only ever tightens loses none of the solutions that satisfy it to the end. Any list of such objectives, also mixed with minimise and maximise objectives or with one of them in it twice, works the same way.",
     ["inputs", "configurations", "histories"], "all small models, user-defined constraints of several kinds, and lists of user-defined and built-in objectives",
     "No test defines a constraint or an objective, and the library's own ones return booleans and are monotone.",
     ["solver.py", "constraint.py", "objective.py", "model.py"],
     [("constraints consulted by the search", "solver.py:Solver.solve"), ("protocol of objectives", "solver.py:Solver.optimize"),
      ("extension points", "constraint.py:Constraint"), ("extension points", "objective.py:Objective")],
     ["Constraint (subclassed)", "Objective (subclassed)", "Solver.solve(..., additional_constraints=...)", "Solver.optimize / optimal_solution"])

prop("C34", "What makes no sense is refused, and nothing is claimed",
     "A command line with an unknown sub-command or option, an ill-typed number, a missing file or argument, or two contradictory inputs ends with status 2 and a message; an input that is not the JSON expected, lacks a key or has entries of the wrong type or shape, and a cryptarithm that is no expression, end in an error; in no such case is a solution, an optimum or a summary printed. The help texts name every sub-command and option. In the library, an objective or constraint made of something that is no expression, a name that is no string, an unknown setting or variable, a constraint given to a call over a name that is no variable, an optimisation of something that is no objective (alone or in a list) and evaluation without a value for a variable raise the documented exception before anything is yielded, and leave model and solver as they were.",
     ["inputs", "histories"], "all command lines and input files with one defect; all sequences of senseless calls between solves",
     "The tests call nothing of this; each well-formed input can be spoilt in very many ways.",
     ["tool/__init__.py", "tool/demo_graph_labeling.py", "tool/demo_knapsack.py", "tool/demo_nonogram.py", "tool/demo_sudoku.py", "cryptarithm.py", "solver.py", "objective.py", "expression.py", "sudoku.py", "knapsack.py"],
     [("argument parsing", "tool/__init__.py:main"), ("objectives checked before the search", "solver.py:Solver.optimize"), ("shape and type checks", "knapsack.py:KnapsackOptimizer.__init__")],
     ["exit status, stdout and stderr of satisfy.tool.main", "Minimize(...)", "Solver.optimize(...)", "Expression.evaluate"])

prop("C35", "What cannot be evaluated is an error, never an answer",
     "A constraint or an objective that cannot be evaluated (a division by zero, an exception raised by the user's own code) on an assignment that no other constraint rules out makes the solve or optimisation raise that very error to the caller; the solutions delivered before it are solutions, and a solve that ends without an error has delivered all of them. None is raised for values that the domains, or constraints on a single variable, rule out for constraints on several, nor where the left operand of & or | settles the matter. Compilation makes no difference, asking again gives the same, and the solver then works as before.",
     ["inputs", "configurations", "fault_sequences"], "all small models with partial constraints (quotients, remainders, raising user code; guarded or not) and objectives",
     "No test has a constraint that is undefined anywhere.",
     ["solver.py", "constraint.py", "objective.py", "expression.py", "cryptarithm.py"],
     [("verdict on a partial assignment", "constraint.py:Constraint.unsatisfied"), ("single-variable constraints filter domains first", "solver.py:Solver._setup"), ("short-circuiting and / or", "expression.py:And, Or"), ("value of a solution", "objective.py:MinMax.add_solution")],
     ["exceptions from Solver.solve, Solver.optimal_solution", "solutions delivered before"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
