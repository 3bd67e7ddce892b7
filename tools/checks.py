# What each check runs. quick/thorough = (number of runs, seconds at most).
SEARCH_REAL = ("Smt2_parser, lexer, term manager, internaliser, Yaga facade, Solver loop, Trail, Database, Theory_combination, Bool_theory, "
               "Linear_arithmetic, Bounds, conflict analyses, Subsumption, Uninterpreted_functions, Generalized_vsids/Evsids, Glucose_restart, Long_fraction")
SEARCH_STUB = ("the choice made at each decision, rational value, polarity, restart and split (seeded overrides around the real heuristics); "
               "streams are in-memory; every run is its own process")
RULE_SCRIPT = ("a case is a generated script (random Boolean structure, clauses over atoms, difference chains, planted solutions, congruence chains), "
               "an option set and a seeded schedule; non-trivial: at least one conflict was analysed, distinct by its sequence of events "
               "(decisions, conflicts, backjumps, restarts)")
RULE_CNF = ("a case is a generated clause set, a set-up and a seeded schedule; non-trivial: at least one conflict was analysed, "
            "distinct by its sequence of events")
T = "deterministic simulation: seeded search over schedules with injected adverse choices, "
CHECKS = {}
def c(id, technique, note, quick, thorough, real=SEARCH_REAL, stub=SEARCH_STUB, rule=RULE_SCRIPT, flavour="fast"):
    CHECKS[id] = dict(technique=technique, note=note, quick=quick, thorough=thorough, real=real, stub=stub, rule=rule, flavour=flavour)
NOTE = (" Assurance is that of the runs made: seeded exploration, no exhaustive claim. Trusted: the reference procedures in sim/ref.hpp and sim/ast.hpp "
        "(independent of the code under test), the generators' distribution, GMP, the C++ compiler and library.")

c("C01", T + "answers compared with an independent reference procedure, assignments re-evaluated",
  "Every answer on generated clause sets (up to ~25 variables) is compared with a reference search, and every assignment is evaluated." + NOTE,
  (90000, 45), (20000000, 780), rule=RULE_CNF)
c("C02", T + "answers compared with an independent lazy SMT reference (exact simplex)",
  "Every check-sat answer on generated QF_LRA scripts is compared with a reference decision procedure." + NOTE, (120000, 50), (20000000, 780))
c("C03", T + "answers compared with an independent reference (Ackermann expansion, exact simplex)",
  "Every check-sat answer on generated QF_UFLRA scripts with functions over reals is compared with a reference decision procedure." + NOTE, (90000, 50), (20000000, 780))
c("C04", T + "printed models parsed back and evaluated exactly",
  "Every printed model is parsed, checked for declared names and sorts and every assertion is evaluated under it with exact rationals." + NOTE, (90000, 50), (20000000, 780))
c("C05", T + "each learned fact decided by the reference at the moment it is learned",
  "Each learned clause is checked to follow from the asserted clauses in arithmetic with congruence." + NOTE, (60000, 50), (20000000, 780))
c("C06", T + "state invariants evaluated at every decision point",
  "At every decision point all clauses, atoms and the trail are inspected." + NOTE, (90000, 50), (20000000, 780))
c("C07", T + "proposals of the decision heuristics checked at every decision point",
  "Each proposal of the real heuristic is checked against the set of unassigned variables, in whole searches and in histories driven directly on the heuristic and the arithmetic plugin." + NOTE, (90000, 50), (20000000, 780))
c("C08", T + "clause store compared before and after each restart and backjump",
  "The asserted and learned clauses are compared with recorded copies at every restart, backjump and decision; answers are compared with the reference." + NOTE, (60000, 50), (20000000, 780))
c("C09", T + "progress within a bound once the disturbances stop",
  "After a bounded adverse prefix each run must answer within a bound far above anything observed." + NOTE, (60000, 50), (20000000, 780))
c("C11", T + "answers of several schedules and option sets on one larger input compared, models evaluated",
  "Inputs beyond the reach of the reference; only disagreement and wrong models are detected." + NOTE, (20000, 55), (20000000, 780))
c("C12", T + "kept bounds compared with a recomputation from the state at every decision point",
  "Bounds and admissible values of every open rational variable are recomputed exactly from the assigned atoms at every decision point of whole searches and in histories driven directly on the plugin." + NOTE, (25000, 60), (20000000, 780))
c("C17", T + "every check-sat of a session compared with the reference for the assertions so far",
  "Scripts with several check-sat and get-model commands; each answer and model is judged for the assertions made so far." + NOTE, (60000, 50), (20000000, 780))

FILE_STUB = ("read(2) on the input file and the stream buffer (seeded short reads, interruptions, read errors, early end of file); "
             "everything else of the tools runs unchanged, each run in a child process")
c("C13", T + "answers under faulty deliveries compared with the answers to the complete script",
  "The whole smt tool (main included) and the stream API read generated scripts through a simulated device." + NOTE, (9000, 45), (20000000, 780),
  real="smt_solver.cpp main, Smt2_parser, Flex_lexer, smt2_lexer.ll, term parser, " + SEARCH_REAL, stub=FILE_STUB,
  rule="a case is a generated script (with unusual names), a second layout of it, options and a number of seeded deliveries with faults; "
       "non-trivial: at least one delivery was made, distinct by layout, kind and place of the faults and shape of the deliveries")
c("C14", T + "verdicts under faulty deliveries compared with the reference for the clauses that arrived",
  "The whole sat tool (main included) reads generated DIMACS files through a simulated device." + NOTE, (40000, 45), (20000000, 780),
  real="sat_solver.cpp main, Solver, Bool_theory, Evsids, Glucose_restart, Conflict_analysis", stub=FILE_STUB,
  rule="a case is a generated clause file in a random DIMACS layout and a number of seeded deliveries with faults; "
       "non-trivial: at least one delivery was made, distinct by size, kind and place of the faults and shape of the deliveries")
c("C18", T + "operations of many clients on shared numbers compared with a model of exact numbers",
  "Histories of operations on the real numbers (create, copy, move, arithmetic, rounding, comparison, printing, containers, destruction) are compared step by step with GMP numbers." + NOTE,
  (60000, 40), (20000000, 780),
  real="Long_fraction with its pool of long numbers (gcd, lcm, floor division, exact division and get_multiplicand where present)",
  stub="the clients (seeded programs interleaved by the seeded scheduler), operator new (seeded failures and placement)",
  rule="a case is a list of operations of up to four clients with values near the machine-word limits; non-trivial: more than 20 operations, distinct by the list of operations")
c("C16", T + "sessions interleaved on fibers compared with the same sessions alone",
  "Sessions of the real front end run on fibers and are switched at reads and at decision points; output, models, statistics and event history of each are compared with its run alone in a fresh process." + NOTE,
  (50000, 45), (20000000, 780),
  stub="the scheduler that switches sessions (one thread, fibers; no preemption inside a step of the solver), chunked input streams, overrides of choices, sessions ended at arbitrary steps",
  rule="a case is two to five sessions (scripts and clause sets, options, seeded overrides) and a seeded interleaving; non-trivial: there was a switch and a conflict, "
       "distinct by the event histories of the sessions and the number of switches")
c("C10", T + "one session repeated in other surroundings (heap layout, memory contents, earlier sessions) and compared",
  "Output, model, statistics and event history of a session are compared between a fresh process and processes with moved and dirty memory and earlier sessions." + NOTE,
  (50000, 45), (20000000, 780),
  stub="operator new (seeded placement, contents and reuse of memory), malloc contents, stack contents, earlier sessions in the process, chunked input, overrides of choices; "
       "memory of GMP and flex is only filled, not moved",
  rule="a case is a session, up to two other sessions and a seeded list of surroundings; non-trivial: a conflict was analysed, distinct by event history and surroundings")
c("C15", T + "allocation failures injected at seeded points of sessions, answers compared with a run that has memory",
  "Single, several or all further allocations (all, or only large ones) fail from a seeded point on; what is printed, what reaches the caller, a session running beside it and a later clean run are checked." + NOTE,
  (50000, 45), (20000000, 780),
  stub="operator new (seeded failures), the output buffer, chunked input, the scheduler that switches to the session running beside it; "
       "memory taken by GMP and flex with malloc never fails",
  rule="a case is a session, possibly a second one beside it and a seeded list of failure plans; non-trivial: an allocation failed, distinct by event history and plans")
c("C19", T + "arithmetic plugin driven by a simulated solver through histories of assertions, decisions and backtracks",
  "Each conflict is checked to be false on the trail and valid in arithmetic by a reference solver, each quiet state for atoms without or with a wrong truth value and for variables "
  "without an admissible value, each atom propagated early for being implied." + NOTE,
  (400000, 40), (100000000, 780),
  real="Linear_arithmetic, Bounds, Variable_bounds, Lra_conflict_analysis, Linear_constraints, Trail, Event_dispatcher, Long_fraction",
  stub="the solver loop (seeded assertions, decisions of atoms and values, backtracks to any level below the conflict, restarts), clauses",
  rule="a case is the set of atoms, the plugin options and the list of operations; non-trivial: a conflict was reported, distinct by the operations that took effect")
c("C20", T + "restart policies driven by a simulated solver through histories of conflicts, backtracks and restarts",
  "Each answer of the policies is compared with Luby's sequence and with exponential averages computed in double precision from an independent record of levels; answers closer to the threshold than rounding can decide are not judged." + NOTE,
  (300000, 30), (100000000, 600),
  real="Luby_restart, Glucose_restart, Trail, Event_dispatcher, Clause",
  stub="the solver loop (seeded decisions, propagations at any level, conflicts, backtracks, forced and ignored restarts)",
  rule="a case is the parameters and the list of events; non-trivial: a restart and more than five questions, distinct by events and answers")
c("C22", T + "scripts damaged by injected loss, repetition, exchange and overwriting of bytes, judged by an independent strict reader",
  "What arrives is read by a strict reader of the harness, which says which commands are valid, which must be refused and what each check-sat then means; "
  "where the text is damaged so that the tool may resynchronise in several ways only the orderly end, the errors and the unrevoked answers are judged." + NOTE,
  (15000, 50), (20000000, 780),
  real="smt_solver.cpp main, Smt2_parser, Flex_lexer, smt2_lexer.ll, term parser, " + SEARCH_REAL, stub=FILE_STUB,
  rule="a case is a generated script, options and a number of seeded lists of damages (bytes, blocks, tokens lost, repeated, exchanged, overwritten); "
       "non-trivial: at least one delivery was made, distinct by layout, place and kind of the damages")
c("C21", T + "script lexers stepped in turn, their inputs cut into pieces, ending early, pausing, given up and replaced, judged by an independent strict reader",
  "Every token of the real lexer (kind, text, error) is compared with the one a reader of the harness finds in the same characters." + NOTE,
  (60000, 40), (20000000, 600),
  real="smt2_lexer (generated from smt2_lexer.ll), Flex_lexer", stub="the input stream (pieces of drawn sizes, early end, pause, replacement), the parser",
  rule="a case is a number of lexers and texts (reserved words and near misses, symbols, literals, comments, junk, long tokens, tokens at block edges); non-trivial: a token was asked for, distinct by schedule and tokens")
c("C26", T + "clause files damaged by injected loss, repetition, exchange and overwriting of bytes, judged by an independent strict reader",
  "What arrives is read by a strict reader of the harness, which says whether the file must be refused and otherwise which clauses it holds; their satisfiability is decided by the reference. "
  "Where tools differ (text after the announced clauses, an unfinished last clause, +3 or 1-2 for numbers) any of the possible readings is accepted." + NOTE,
  (40000, 45), (20000000, 600),
  real="sat_solver.cpp main, " + SEARCH_REAL, stub=FILE_STUB,
  rule="a case is a generated clause file with its layout and a number of seeded lists of damages (bytes, blocks, words lost, repeated, exchanged, overwritten); "
       "non-trivial: at least one delivery was made, distinct by layout, place and kind of the damages")
c("C27", T + "programs of library calls with refused calls and fresh starts, searched under simulated decisions, values and restarts",
  "The reference is given the constraints as the program wrote them, not as the library stores them." + NOTE,
  (120000, 45), (20000000, 600),
  real=SEARCH_REAL + ", Yaga (facade), Linear_constraints, Linear_arithmetic", stub="the calling program; decision order, polarity, suggested values and restarts perturbed by seed",
  rule="a case is a list of library calls making one to five problems on one object, with options and disturbance rates; non-trivial: a conflict happened, distinct by literals, answers and the search history")
c("C23", T + "decision heuristics driven by a simulated solver through histories of conflicts, backtracks, restarts and checks",
  "Each proposal and each comparison of the real heuristics is judged by activities computed from the definition in extended precision; differences within rounding are not judged." + NOTE,
  (30000, 50), (20000000, 780),
  real="Generalized_vsids, Evsids, First_unassigned, Variable_priority_queue, Linear_arithmetic, Trail, Event_dispatcher",
  stub="the solver loop (seeded assertions, decisions, conflicts, learned clauses, backtracks to any level, restarts, new variables, new checks, runs of conflicts long enough to rescale)",
  rule="a case is the set of atoms, the options and the list of operations; non-trivial: a conflict was reported, distinct by the operations that took effect")
c("C24", T + "each decision's value and each check's counters compared with an independent record of the history",
  "Values of decisions are compared with the phase strategy and the record of earlier values, counters with the events seen, the tool with the library under the same options." + NOTE, (120000, 45), (20000000, 780))
c("C25", T + "term stores driven by clients with seeded histories of operations and failed allocations, compared with a model",
  "Each term is read back from the store and evaluated under fixed interpretations; the value is compared with the operation's meaning on exact numbers, handles with those given before." + NOTE,
  (30000, 50), (20000000, 780),
  real="Term_manager, Term_table, Term_hash_table, Polynomial, Rewriter, Visitor, Long_fraction",
  stub="the clients (seeded operations on up to three stores), operator new (seeded failures and placement)",
  rule="a case is a list of operations; non-trivial: more than 15 terms were built, distinct by the list of operations that took effect")
