# Writes /verif/properties.jsonl (the list is kept here in a readable form).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
H = "variable, value, polarity and restart choices are replaced through the solver's own strategy interfaces plus the guarded hooks in src/Sim_hooks.h"

p("C01", "Propositional answers are right under every search schedule",
  "For every set of clauses over Boolean variables, the solver answers sat exactly when some assignment satisfies all clauses, and on sat the assignment it holds satisfies every clause. This is so whatever order variables are decided in, whichever polarity they are given and whenever the search restarts.",
  ["inputs", "schedules", "configurations"],
  "every clause set, every variable order, every polarity choice at every decision, every restart point",
  "The tests solve a handful of fixed clause sets with the built-in order; a lost watch or a wrong backjump shows only for particular clause sets under particular decision and restart sequences.",
  ["src/Solver.cpp", "src/bool/Bool_theory.cpp", "src/Conflict_analysis.cpp", "src/Subsumption.cpp", "src/Trail.h", "src/Database.h", "src/variable_order/Evsids.cpp"],
  [("conflict-driven search loop", "src/Solver.cpp: Solver::check"), ("two watched literals", "src/bool/Bool_theory.cpp"), ("first-UIP analysis and backjump level", "src/Conflict_analysis.cpp")],
  ["result and model of Solver::check"], None, H)
p("C02", "QF_LRA answers are right under every search schedule",
  "For every script in quantifier-free linear real arithmetic (Boolean structure, let, if-then-else, distinct, defined functions, arbitrarily large exact numbers), check-sat prints sat exactly when the assertions have a solution over the rationals. This is so for every combination of command-line options, every order and value of decisions and every restart point.",
  ["inputs", "schedules", "configurations"],
  "every QF_LRA script, all option combinations, every variable order, decided value, polarity and restart sequence",
  "The tests run one schedule on fixed small problems and mostly build constraints by hand, never through the script language; soundness depends on which value each variable happens to get and on what is learned then.",
  ["src/parser/Solver_wrapper.cpp", "src/parser/Smt2_term_parser.cpp", "src/parser/Parser_context.cpp", "src/terms/Term_manager.cpp", "src/lra/Linear_arithmetic.cpp", "src/lra/Bounds.cpp", "src/lra/Lra_conflict_analysis.cpp", "src/lra/Linear_constraints.h", "src/Solver.cpp", "src/Theory_combination.cpp", "src/terms/Term_rewriter.h"],
  [("internalisation into clauses and constraints", "src/parser/Solver_wrapper.cpp: Internalizer_config::visit"), ("bound tracking and conflicts", "src/lra/Bounds.cpp, src/lra/Lra_conflict_analysis.cpp"), ("semantic splits and backtracking", "src/Solver.cpp: backtrack_with")],
  ["check-sat output"], None, H)
p("C03", "QF_UFLRA answers are right under every search schedule",
  "For every script in quantifier-free linear real arithmetic with uninterpreted functions, check-sat prints sat exactly when some rational values and some functions satisfy the assertions, so equal arguments always give equal results. This is so for every order and value of decisions, every polarity and every restart point.",
  ["inputs", "schedules", "configurations"],
  "every QF_UFLRA script with functions over reals, every option combination and every search schedule",
  "Tests of functions use a few fixed terms and one schedule; whether a congruence is noticed depends on which applications are evaluated, backtracked over and evaluated again.",
  ["src/uf/Uninterpreted_functions.cpp", "src/Theory_combination.cpp", "src/parser/Solver_wrapper.cpp", "src/lra/Linear_arithmetic.cpp", "src/Yaga.cpp", "src/Conflict_analysis.cpp"],
  [("function application table rolled back on backtracking", "src/uf/Uninterpreted_functions.cpp: add_function_value, on_before_backtrack"), ("theory combination fix-point", "src/Theory_combination.cpp: propagate")],
  ["check-sat output"], None, H)
p("C04", "Printed models satisfy every assertion",
  "Whenever check-sat prints sat, the following get-model prints well-formed definitions, in the right sorts, of the declared constants and functions, and evaluating every asserted formula under them with exact arithmetic gives true. Nothing is printed as a model after any other answer.",
  ["inputs", "schedules", "configurations"],
  "every satisfiable script and every way the search can reach sat",
  "The existing tests never read a printed model back; which model is found depends on the schedule, and a model can be wrong while the answer is right.",
  ["src/parser/Smt2_parser.cpp", "src/parser/Solver_wrapper.cpp", "src/uf/Uninterpreted_functions.cpp", "src/lra/Linear_arithmetic.cpp", "src/lra/Long_fraction.cpp"],
  [("model enumeration", "src/parser/Solver_wrapper.cpp: Solver_wrapper::model"), ("model printing", "src/parser/Smt2_parser.cpp: Print_model")],
  ["get-model output"], None, H)
p("C05", "Everything learned follows from the input",
  "Each fact the solver learns while searching is a logical consequence of the asserted formulas in the background theory, no matter what was decided before it was learned. Facts therefore never rule out a genuine solution.",
  ["inputs", "schedules", "histories"],
  "every learned fact in every search history",
  "A wrong learned fact usually leaves the answer of small tests unchanged; it has to be checked against the theory at the moment it is learned, in every history.",
  ["src/Conflict_analysis.cpp", "src/Subsumption.cpp", "src/lra/Lra_conflict_analysis.cpp", "src/uf/Uninterpreted_functions.cpp", "src/Solver.cpp"],
  [("resolution to an asserting or split clause", "src/Conflict_analysis.cpp"), ("theory explanations", "src/lra/Lra_conflict_analysis.cpp, src/uf/Uninterpreted_functions.cpp")],
  ["clause-learned event of the solver"], None, H)
p("C06", "Search never proceeds from a state it should have rejected",
  "Whenever the solver makes its next decision, no asserted or learned clause is already false, every clause with one literal left has been propagated, every arithmetic atom whose variables all have values has the matching truth value, and every partial assignment is recorded at a consistent level.",
  ["inputs", "schedules", "histories"],
  "every decision point of every search history, including those right after backjumps, splits and restarts",
  "Tests look at the end result or at one propagation call; missed propagations after particular backtracking histories are usually repaired later and stay invisible.",
  ["src/bool/Bool_theory.cpp", "src/lra/Linear_arithmetic.cpp", "src/Theory.cpp", "src/Theory_combination.cpp", "src/Trail.h", "src/Solver.cpp", "src/Model.h"],
  [("watch lists for literals and rational variables", "src/bool/Bool_theory.cpp, src/lra/Linear_arithmetic.cpp"), ("fix-point over theories", "src/Theory_combination.cpp"), ("trail levels", "src/Trail.h")],
  ["state seen by the variable-order strategy when it is asked for a decision"],
  [("trail", "assignments by decision level with reasons", "src/Trail.h")], H)
p("C07", "Decisions are complete: no variable is skipped or decided twice",
  "The decision heuristics only ever propose variables that are unassigned at that moment, and they report that nothing is left exactly when every variable has a value. This holds after any history of backjumps, semantic splits and restarts, and when variables are created in the middle of the search.",
  ["schedules", "histories", "inputs"],
  "every history of decisions, propagations, backtracks and restarts seen by a heuristic",
  "Heuristic tests drive one short history; an entry missing from a priority queue after a certain backtrack only shows when that variable would have mattered.",
  ["src/variable_order/Generalized_vsids.cpp", "src/variable_order/Variable_priority_queue.cpp", "src/variable_order/Evsids.cpp", "src/variable_order/First_unassigned.cpp", "src/variable_order/Combined_order.h"],
  [("priority queue refilled on backtracking", "src/variable_order/Generalized_vsids.cpp: on_before_backtrack"), ("score heap with positions", "src/variable_order/Variable_priority_queue.cpp")],
  ["variables returned by the decision heuristics"], None, H)
p("C08", "Restarts and backjumps never lose or corrupt knowledge",
  "Across any sequence of restarts and backjumps the asserted clauses keep exactly their literals, learned clauses keep exactly the literals they were learned with, and after a restart every assignment made by a decision is gone. A later answer is therefore the one the same input gives without the restarts.",
  ["schedules", "histories"],
  "every sequence of restarts and backjumps, including a restart after every conflict",
  "Restart tests check only the restart formulas; nothing compares the clause store before and after, or forces restarts at hostile moments.",
  ["src/Solver.cpp", "src/Restart.h", "src/Database.h", "src/bool/Bool_theory.cpp", "src/Trail.h", "src/Event_dispatcher.h"],
  [("restart clears the trail and notifies listeners", "src/Solver.cpp: restart"), ("stable clause storage", "src/Database.h")],
  ["clause database and trail at restart and backtrack events"], None, H)
p("C09", "The search makes progress and ends once disturbances stop",
  "On every input the search reaches an answer: after any finite prefix of forced restarts, adverse decision orders, adverse values and adverse polarities, it finishes within a bounded number of further decisions and conflicts. No conflict leaves the search exactly where it was.",
  ["inputs", "schedules", "histories"],
  "every finite prefix of adverse scheduling followed by undisturbed running",
  "A test that ends says nothing about the other schedules; livelock needs a particular interplay of values, splits and backjumps.",
  ["src/Solver.cpp", "src/Conflict_analysis.cpp", "src/lra/Linear_arithmetic.cpp", "src/Restart.h", "src/uf/Uninterpreted_functions.cpp"],
  [("backtracking over a semantic decision on a split", "src/Solver.cpp: backtrack_with"), ("value search within bounds", "src/lra/Linear_arithmetic.cpp: find_integer, decide")],
  ["number of decisions and conflicts until the answer"], None, H)
p("C10", "Runs are reproducible",
  "The same input with the same options always gives the same answer, the same model and the same search statistics, independent of memory layout, of what the process did before and of the process it runs in.",
  ["inputs", "histories", "configurations"],
  "every input, every heap layout and every sequence of earlier sessions in the same process",
  "Each test runs once; dependence on addresses, stale statics or uninitialised memory only shows when the same input is run twice in different surroundings.",
  ["src/parser/Smt2_parser.cpp", "src/parser/Solver_wrapper.cpp", "src/terms/Term_hash_table.cpp", "src/lra/Long_fraction.cpp", "src/lra/Linear_constraints.h", "src/Subsumption.cpp", "src/Solver.cpp"],
  [("ordinal-numbered variables and terms", "src/terms/Terms.h"), ("deterministic heuristics", "src/variable_order, src/Restart.h")],
  ["answers, models and statistics of repeated runs"], None, None)
p("C11", "Options and schedules never change the answer, at realistic sizes",
  "For one input, runs with different options, decision orders, values, polarities and restart times all give the same answer. This also holds for inputs of a size for which no independent answer is at hand.",
  ["inputs", "schedules", "configurations"],
  "all pairs of option sets and schedules on the same larger input",
  "Tests never run one input under two schedules; larger inputs exercise learning, restarts and score rescaling that small ones do not reach.",
  ["src/Solver.cpp", "src/Yaga.cpp", "src/lra/Linear_arithmetic.cpp", "src/lra/Bounds.cpp", "src/Options.h", "src/Restart.h", "src/variable_order/Generalized_vsids.cpp"],
  [("options only select heuristics", "src/Yaga.cpp: setup"), ("bound deduction", "src/lra/Bounds.cpp: deduce")],
  ["check-sat output across runs"], None, H)
p("C12", "Tracked variable bounds are sound and complete at every moment",
  "At any moment of any history of assignments and backtracking, the bounds kept for an unassigned rational variable follow from the constraints currently asserted true, and they are at least as tight as every constraint in which that variable is the only one without a value. A value is accepted for the variable exactly when none of those constraints forbids it.",
  ["histories", "schedules", "inputs"],
  "every history of constraint assignments, value assignments and backtracks",
  "Bound tests add a few bounds and backtrack once; stale or dropped bounds depend on the order in which constraints and values come and go.",
  ["src/lra/Variable_bounds.h", "src/lra/Bounds.cpp", "src/lra/Linear_arithmetic.cpp", "src/Model.h"],
  [("bound stacks with lazy removal by timestamp", "src/lra/Variable_bounds.h: is_obsolete, remove_obsolete"), ("watched variables find unit constraints", "src/lra/Linear_arithmetic.cpp: replace_watch")],
  ["lower/upper bound and allowed-value queries of the arithmetic plugin at every decision point"],
  [("timestamps", "logical time a variable got its value", "src/Model.h")], H)
p("C13", "How an SMT script is delivered never changes or invents an answer",
  "The answers printed for a script do not depend on how its bytes arrive (chunk sizes, short reads), nor on the white space and comments between its tokens. If the input ends early or reading fails, the answers printed are a prefix of the answers to the complete input, and a check-sat that had not begun to arrive is never answered; when the input just ends, every command that arrived completely is still answered.",
  ["fault_sequences", "inputs", "crash_points"],
  "every way of splitting, truncating or failing the input stream, at every byte offset",
  "Tests feed complete strings or none at all; partial delivery and read errors at each offset are never produced.",
  ["src/parser/Flex_lexer.cpp", "src/parser/smt2_lexer.ll", "src/parser/Smt2_parser.cpp", "src/parser/Smt2_term_parser.cpp", "src/parser/smt2_lexer.h"],
  [("buffered lexer over a stream", "src/parser/smt2_lexer.ll, src/parser/Flex_lexer.cpp"), ("command loop", "src/parser/Smt2_parser.cpp: Smt2_command_context")],
  ["answers on the output stream, exit or error"], None, None)
p("C14", "How a DIMACS file is delivered never changes or invents an answer",
  "The SAT tool's verdict for a clause file does not depend on how the file's bytes arrive. If the file is cut off or cannot be read, or has fewer clauses than announced, the tool reports an error or the verdict of a file consistent with what it read, and never a verdict about missing clauses.",
  ["fault_sequences", "inputs", "crash_points"],
  "every short read, interrupted read, read error and truncation at every byte offset of every clause file",
  "No test runs the SAT tool at all, let alone on a failing file.",
  ["src/sat_solver.cpp", "src/Solver.cpp", "src/bool/Bool_theory.cpp"],
  [("announced clause count is checked", "src/sat_solver.cpp: main"), ("satisfying assignment is re-checked", "src/sat_solver.cpp: is_satisfying")],
  ["standard output and exit status of the SAT tool"], None, None)
p("C15", "Running out of memory never produces a wrong answer or corruption",
  "If an allocation fails at any point while a script is processed, the failure reaches the caller as an error; answers printed before it are right, no answer is invented after it, and other sessions in the process keep working and leak nothing into each other.",
  ["fault_sequences", "crash_points", "inputs"],
  "a failure of any single allocation, or of every allocation from some point on, in every script",
  "No test makes an allocation fail; there are thousands of failure points per run.",
  ["src/parser/Smt2_parser.cpp", "src/Solver.cpp", "src/terms/Term_manager.cpp", "src/terms/Term_hash_table.cpp", "src/lra/Linear_constraints.h", "src/lra/Long_fraction.cpp"],
  [("exception propagation to the tool's main", "src/smt_solver.cpp"), ("RAII containers", "src/Solver.h, src/terms/Terms.h")],
  ["exceptions and output of a session whose allocator fails"], None, None)
p("C16", "Sessions in one process do not influence each other",
  "Several solver sessions alive in one process, their work interleaved in any way, each give exactly the answers, models and statistics they give alone.",
  ["schedules", "histories"],
  "every interleaving of the sessions' reads, decisions and restarts",
  "Tests create one solver at a time; state shared through statics and pools matters only when sessions overlap.",
  ["src/lra/Long_fraction.cpp", "src/lra/Long_fraction.h", "src/parser/Smt2_parser.cpp", "src/Yaga.h", "src/uf/Uninterpreted_functions.cpp", "src/terms/Term_manager.cpp"],
  [("all solver state owned by the session", "src/parser/Solver_wrapper.h"), ("shared number pool", "src/lra/Long_fraction.cpp")],
  ["answers, models and statistics of interleaved and lone sessions"], None, "session switches happen inside strategy callbacks, value suggestions and stream reads")
p("C17", "Every check-sat in a session answers for what is asserted by then",
  "In a script with several check-sat and get-model commands, each answer is right for the conjunction of all assertions made so far, however many checks were made before and whatever they learned. Once unsat, later checks stay unsat.",
  ["histories", "inputs", "schedules"],
  "every sequence of declarations, assertions, checks and model queries",
  "The tests solve once per solver; leftovers of an earlier check only matter in later ones.",
  ["src/parser/Solver_wrapper.cpp", "src/Yaga.cpp", "src/Solver.cpp", "src/parser/Smt2_parser.cpp", "src/bool/Bool_theory.cpp", "src/uf/Uninterpreted_functions.cpp", "src/Trail.h"],
  [("re-initialisation before each check", "src/Yaga.cpp: init, src/Solver.cpp: init"), ("terms internalised once", "src/parser/Solver_wrapper.cpp")],
  ["answers and models of every check-sat"], None, H)
p("C18", "Rational arithmetic is exact for any history of operations",
  "Every arithmetic operation, comparison, rounding, inversion, conversion and printing of rational numbers gives the mathematically exact result in lowest terms, for values of any size. This holds for any history in which many clients create, copy, move, overwrite and destroy numbers in any order.",
  ["histories", "inputs", "schedules"],
  "every interleaved history of operations by clients sharing the number pool, with values crossing the machine-word limits in both directions",
  "Tests try chosen operands one operation at a time; switching between the short and long representation and re-use of pooled cells depend on the history.",
  ["src/lra/Long_fraction.h", "src/lra/Long_fraction.cpp", "src/lra/Rational.h", "src/lra/Fraction.h"],
  [("overflow checks fall back to long numbers", "src/lra/Long_fraction.h"), ("pooled long numbers", "src/lra/Long_fraction.cpp")],
  ["values and printed form of numbers after each operation"], None, None)
p("C19", "Reported conflicts are genuine and complete",
  "Whenever the arithmetic part reports a conflict, the clause it gives is false in the current state and valid in arithmetic; whenever it reports none, each variable still without a value has an admissible one. Every truth value it gives to an atom by itself follows from what is assigned. This holds after any history of assignments, decisions and backtracks.",
  ["histories", "schedules", "inputs"],
  "every history of assertions of atoms, value decisions and backtracks driven directly on the plugin, under all plugin options",
  "Plugin tests build one state each; conflicts that depend on bounds derived, retracted and re-derived need long histories.",
  ["src/lra/Linear_arithmetic.cpp", "src/lra/Lra_conflict_analysis.cpp", "src/lra/Bounds.cpp", "src/lra/Linear_constraints.h", "src/lra/Linear_constraint.h"],
  [("Fourier-Motzkin explanation of bound conflicts", "src/lra/Lra_conflict_analysis.cpp"), ("check of every changed variable", "src/lra/Linear_arithmetic.cpp: finish")],
  ["clauses returned by the arithmetic plugin, and its allowed-value queries"], None, None)
p("C20", "Restart sequences and moving averages follow their published formulas",
  "Through any history of conflicts, backtracks and restarts (taken when asked for, late, early or not at all), the intervals after which the Luby policy asks for a restart are the Luby sequence times the first interval, and the adaptive policy asks exactly when enough conflicts have passed and the fast exponential average of the clauses' level counts exceeds the slow one by its threshold. Elements and averages equal their published definitions for every index and every history of quality values.",
  ["inputs", "histories"],
  "every index, every sequence of learned clauses over every trail, every moment of a restart",
  "Tests check the first elements of the sequence and a handful of conflicts.",
  ["src/Restart.h"], [("Luby sequence and countdown", "src/Restart.h: Luby_restart"), ("exponential averages of level counts", "src/Restart.h: Glucose_restart")], ["restart policy queries"])
p("C21", "The script lexer delivers exactly the script's tokens, however its input arrives",
  "The tokens a lexer delivers, their kinds and their texts are those the token language (SMT-LIB symbols, quoted symbols, numerals, decimals, hexadecimal, binary and string literals, keywords, reserved words, white space, comments; longest token first) prescribes for the characters of its input, and what is no token is reported as an error. This holds for tokens of any length, wherever the pieces lie in which the input is delivered, when the input ends early, pauses and goes on, or is given up midway for another, after an error, and with other lexers at work in turn.",
  ["inputs", "fault_sequences", "schedules"],
  "every character sequence, every division into pieces, every end, pause and change of the input, every interleaving of lexers",
  "Tests lex a few strings delivered at once; tokens that meet the edge of a buffer, follow an abandoned input or differ by one character from a reserved word are unbounded in number.",
  ["src/parser/smt2_lexer.ll", "src/parser/Flex_lexer.cpp", "src/parser/Flex_lexer.h", "src/parser/smt2_lexer.h", "src/parser/smt2_tokens.h"],
  [("token rules", "src/parser/smt2_lexer.ll"), ("token text", "src/parser/Flex_lexer.cpp: token_string")], ["token stream: next_token, token_string, errors"])

p("C22", "A damaged script is refused where it is damaged, never answered for another",
  "Whatever bytes of a script are lost, repeated, exchanged or overwritten on the way, the tool ends in an orderly way: each command or term that is not valid is reported as an error, commands before the damage are answered as in the intact script, each sat or unsat printed is right for the valid commands accepted by then, and unsat is never revoked.",
  ["fault_sequences", "inputs"],
  "every script and every sequence of lost, repeated, exchanged and overwritten bytes, blocks and tokens in it",
  "The tests parse a handful of well-formed scripts; the ways in which damage can leave a text that still parses are unbounded.",
  ["src/parser/Smt2_parser.cpp", "src/parser/Smt2_commands_context.cpp", "src/parser/Smt2_term_parser.cpp", "src/parser/Parser_context.cpp", "src/parser/smt2_lexer.ll", "src/parser/Flex_lexer.cpp", "src/terms/Term_manager.cpp", "src/smt_solver.cpp"],
  [("commands refused with an error", "src/parser/Smt2_parser.cpp"), ("ill-formed terms refused", "src/parser/Parser_context.cpp, src/parser/Smt2_term_parser.cpp")],
  ["standard output, standard error and exit status of the SMT tool on a damaged script"], None, None)

p("C26", "A damaged clause file is refused, or answered for the clauses it holds",
  "Whatever bytes of a clause file are lost, repeated, exchanged or overwritten on the way, the SAT tool ends in an orderly way: a file that is no valid clause file (a second or missing problem line, negative or missing numbers in it, anything that is no literal, a variable beyond the announced ones, too few clauses) is refused with an error and gets no verdict, except UNSAT when an empty clause came before the damage; any other file is answered, rightly for the clauses it holds, and the exit status agrees with what is printed.",
  ["fault_sequences", "inputs"],
  "every clause file and every sequence of lost, repeated, exchanged and overwritten bytes, blocks and words in it",
  "No test runs the SAT tool; a misread word yields a plausible verdict about other clauses.",
  ["src/sat_solver.cpp"],
  [("problem line and literals are checked", "src/sat_solver.cpp: main"), ("announced clause count is checked", "src/sat_solver.cpp: main")],
  ["standard output, standard error and exit status of the SAT tool on a damaged file"], None, None)

p("C27", "Problems built through the library are answered right",
  "A program that builds a problem on a Yaga object (Boolean and rational variables, clauses, linear constraints with any rational coefficients, zero ones and none at all included), possibly after earlier problems and a fresh start in another logic, gets the right answer; when it is sat, every variable has a value, every clause is true, and the literal of each constraint is true exactly if the values make it true. A constraint asked for again, with its terms reordered or multiplied, or negated, is the literal that exists already or its negation. A constraint over a variable that does not exist, or in a logic without arithmetic, is refused without effect.",
  ["histories", "schedules", "inputs"],
  "every sequence of library calls and every schedule of decisions, values and restarts of the search",
  "The tests of the library build a handful of fixed problems, one per object; constraints without variables, refused calls and a second problem on the same object are not tried.",
  ["src/Yaga.h", "src/Yaga.cpp", "src/lra/Linear_constraints.h", "src/lra/Linear_constraint.h", "src/lra/Linear_arithmetic.h", "src/Solver.cpp", "src/Trail.h"],
  [("constraints are normalized and deduplicated", "src/lra/Linear_constraints.h: make"), ("documented preconditions are checked", "src/Yaga.h: linear_constraint"), ("a fresh start removes all clauses and variables", "src/Yaga.cpp: init, set_logic")],
  ["answer, model values, literals returned, exceptions"], None, None)

p("C23", "Decisions follow the activity of the conflicts seen so far",
  "Through any history of conflicts, learned clauses, backtracks, restarts, new variables and further checks, the activity of a variable is the number of its occurrences in the clauses that took part in conflicts (for a rational variable: through the constraints of the atoms in them), each weighted by a factor that grows geometrically with every learned clause. The variable the heuristic proposes is open, and no other open one is notably more active, except that a rational with a single value left may go first; its comparison of two variables agrees with these activities, also across rescaling. The fixed-order heuristic proposes the first open variable.",
  ["histories", "schedules", "inputs"],
  "every history of conflicts, learned clauses, backtracks, restarts, growing variable sets and checks, of any length",
  "Tests bump a few variables once; a priority queue out of step with its scores shows only after rescaling, a second check, or backtracks in between.",
  ["src/variable_order/Generalized_vsids.cpp", "src/variable_order/Generalized_vsids.h", "src/variable_order/Evsids.h", "src/variable_order/Variable_priority_queue.h", "src/variable_order/First_unassigned.h"],
  [("scores, decay and rescaling", "src/variable_order/Generalized_vsids.h, src/variable_order/Evsids.h"), ("the queue follows the scores", "src/variable_order/Variable_priority_queue.h")],
  ["variable proposed by the heuristics, their comparison of two variables"], None, None)
p("C24", "Options and counters mean what they say",
  "In any run a Boolean decision takes the value its phase strategy prescribes (always true, always false, or the value the variable had last), and a rational variable keeps the value it had last as long as that is admissible. The counters of conflicts, learned clauses and literals, decisions and restarts equal the events of the check they are reported for. The command-line tool run with options prints exactly what the library configured with these options gives; with an option that does not exist it gives no answers and reports an error.",
  ["histories", "schedules", "inputs"],
  "every history of decisions, conflicts, backtracks, restarts and checks, under every option set",
  "The tests look at neither the counters nor the values chosen; a phase or value cached too early, too late or for a level that was undone only matters over histories.",
  ["src/bool/Bool_theory.cpp", "src/lra/Linear_arithmetic.cpp", "src/Solver.cpp", "src/parser/Solver_wrapper.cpp", "src/smt_solver.cpp", "src/Options.h"],
  [("phase strategies", "src/bool/Bool_theory.cpp: decide"), ("cached rational values", "src/lra/Linear_arithmetic.cpp: decide"), ("counters", "src/Solver.cpp: check"), ("options of the tool", "src/smt_solver.cpp")],
  ["values of decisions, counters and printed statistics, output of the tool"], None, H)

p("C25", "Terms keep their meaning and identity through any history of the store",
  "Through any history of operations by clients sharing term stores, including operations that run out of memory, a term has the value and the sort the operation gives for its arguments under every interpretation. Building a term again (for sums and disjunctions in any order, for polynomials in any way of writing them) gives the same handle; fresh variables are new; simultaneous substitution gives the term whose value is that of the original with the variables' values exchanged; visitors see every reachable term once, arguments first; names stay with their terms. Earlier terms are never changed by later operations.",
  ["histories", "inputs", "schedules"],
  "every history of constructions, substitutions, walks, growth of the tables and failed allocations, in several stores at once",
  "Tests build a handful of terms each; hash-consing, merging and simplification interact with what was built before.",
  ["src/terms/Term_manager.cpp", "src/terms/Terms.cpp", "src/terms/Terms.h", "src/terms/Term_hash_table.cpp", "src/terms/Term_hash_table.h", "src/terms/Arithmetic_polynomial.h", "src/terms/Term_rewriter.h", "src/terms/Term_visitor.h"],
  [("hash consing", "src/terms/Term_hash_table.cpp"), ("normalising constructors", "src/terms/Term_manager.cpp"), ("merging of polynomials", "src/terms/Arithmetic_polynomial.h"), ("substitution", "src/terms/Term_rewriter.h")],
  ["handles, kinds, sorts, arguments, constants and names of terms"], None, None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
