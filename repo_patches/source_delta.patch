From 088128cfa1880326d7c3a1d889460c48afa186dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 01/25] Add simulation seams guarded by YAGA_SIM (off by
 default)

---
 src/Sim_hooks.h               | 49 +++++++++++++++++++++++++++++++++++
 src/Yaga.cpp                  | 11 ++++++++
 src/lra/Linear_arithmetic.cpp | 10 +++++++
 3 files changed, 70 insertions(+)
 create mode 100644 src/Sim_hooks.h

diff --git a/src/Sim_hooks.h b/src/Sim_hooks.h
new file mode 100644
index 0000000..a2c198f
--- /dev/null
+++ b/src/Sim_hooks.h
@@ -0,0 +1,49 @@
+#ifndef YAGA_SIM_HOOKS_H
+#define YAGA_SIM_HOOKS_H
+
+// Seams for a deterministic simulator. Nothing here is compiled unless YAGA_SIM is defined.
+#ifdef YAGA_SIM
+
+#include "Rational.h"
+
+namespace yaga {
+
+class Initializer;
+class Yaga;
+struct Options;
+
+namespace sim {
+
+/** Callbacks of a simulator that owns the nondeterministic choices of the solver.
+ */
+class Hooks {
+public:
+    virtual ~Hooks() = default;
+
+    /** Called in `Yaga::set_logic()` after @p init has set up the solver @p yaga. The simulator can
+     * replace the variable order, the restart policy or options of plugins.
+     *
+     * @param init initializer used to set up @p yaga
+     * @param yaga solver
+     * @param options solver options
+     */
+    virtual void on_set_logic(Initializer const& init, Yaga& yaga, Options const& options) = 0;
+
+    /** Called when the LRA plugin is about to decide a variable. The simulator can change the
+     * value the plugin will try first.
+     *
+     * @param lra_var_ord ordinal number of the decided rational variable
+     * @param value value to try first
+     */
+    virtual void on_suggest_value(int lra_var_ord, Rational& value) = 0;
+};
+
+// current simulator or nullptr if there is none
+inline Hooks* hooks = nullptr;
+
+} // namespace sim
+} // namespace yaga
+
+#endif // YAGA_SIM
+
+#endif // YAGA_SIM_HOOKS_H
diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index bb7edbe..4f67b58 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -2,6 +2,10 @@
 
 #include "Yaga.h"
 
+#ifdef YAGA_SIM
+#include "Sim_hooks.h"
+#endif
+
 namespace yaga {
 
 void Propositional::setup(Yaga* yaga, Options const& options) const
@@ -85,6 +89,13 @@ void Yaga::set_logic(Initializer const& init, Options const& options) {
             }
         }
     }
+
+#ifdef YAGA_SIM
+    if (sim::hooks)
+    {
+        sim::hooks->on_set_logic(init, *this, options);
+    }
+#endif
 }
 
 bool Yaga::has_uf() {
diff --git a/src/lra/Linear_arithmetic.cpp b/src/lra/Linear_arithmetic.cpp
index 00ac511..b7c27b0 100644
--- a/src/lra/Linear_arithmetic.cpp
+++ b/src/lra/Linear_arithmetic.cpp
@@ -1,5 +1,9 @@
 #include "Linear_arithmetic.h"
 
+#ifdef YAGA_SIM
+#include "Sim_hooks.h"
+#endif
+
 namespace yaga {
 
 void Linear_arithmetic::on_variable_resize(Variable::Type type, int num_vars)
@@ -515,6 +519,12 @@ void Linear_arithmetic::decide(Database&, Trail& trail, Variable var)
 
     Rational value =
         cached_values.is_defined(var.ord()) ? cached_values.value(var.ord()) : Rational{0};
+#ifdef YAGA_SIM
+    if (sim::hooks)
+    {
+        sim::hooks->on_suggest_value(var.ord(), value);
+    }
+#endif
     if (!bnds.is_allowed(models, value))
     {
         if (auto int_value = find_integer(models, bnds))
-- 
2.43.0


From e694d05244d85e426b13cabedb12b894aab1e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 02/25] fix: substitute the parameters of a defined function
 throughout its body

The rewriter descended only into children it had already processed, so a
parameter below the root of the body was never replaced; negated terms lost
their sign and applications their function symbol when they were rebuilt.
---
 src/terms/Term_rewriter.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..8a07331 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -5,6 +5,7 @@
 #include <unordered_map>
 
 #include "Term_manager.h"
+#include "Terms.h"
 
 namespace yaga::terms {
 
@@ -41,7 +42,7 @@ public:
             {
                 term_t next_child = children[current_entry.next_child];
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
@@ -56,7 +57,18 @@ public:
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
-            term_t newTerm = needs_change ? tm.mk_term(tm.get_kind(current_term), aux_args) : current_term;
+            term_t newTerm = current_term;
+            if (needs_change)
+            {
+                auto kind = tm.get_kind(current_term);
+                if (kind == Kind::APP_TERM)
+                {
+                    // get_args() leaves out the function symbol
+                    aux_args.insert(aux_args.begin(), tm.get_fnc_symbol(current_term));
+                }
+                newTerm = tm.mk_term(kind, aux_args);
+                if (is_negated(current_term)) { newTerm = opposite_term(newTerm); }
+            }
             aux_args.clear();
             term_t rewritten = cfg.rewrite(newTerm);
             if (rewritten != newTerm or needs_change) {
@@ -90,11 +102,11 @@ public:
 
     term_t rewrite(term_t term) override
     {
-        if (not is_negated(term) and tm.get_kind(term) == Kind::UNINTERPRETED_TERM)
+        if (tm.get_kind(term) == Kind::UNINTERPRETED_TERM)
         {
-            if (auto it = subst_map.find(term); it != subst_map.end())
+            if (auto it = subst_map.find(positive_term(term)); it != subst_map.end())
             {
-                return it->second;
+                return is_negated(term) ? opposite_term(it->second) : it->second;
             }
         }
         return term;
-- 
2.43.0


From 29e80985e28ebae6a1d8ba62f04bae25d8742801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 03/25] fix: Long_fraction::inv() of values that do not fit a
 word

inv() read the word part of the number unconditionally, which is stale when
only the mpq part is valid, and truncated denominators above INT_MAX.
---
 src/lra/Long_fraction.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..08775e4 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -419,11 +419,7 @@ public:
     }
 
     inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
+        return inverse();
     }
 };
 
-- 
2.43.0


From c670e5954cafaaa1c3f71a60017f1f91acafc1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 04/25] fix: do not queue an effectively decided variable twice

A variable that became unassigned and effectively decided again was pushed to
the priority queue while it was still there, which the queue asserts against.
---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From ea7415a7bc20b932ec1ba3e0cab0d6196d3094e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 05/25] fix: equality of two representations of the same
 polynomial

(= x (* 0.5 (* 2 x))) aborted on an assertion because a product with
coefficient one was not recognised as its variable.
---
 src/terms/Term_manager.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..e091c7a 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -426,7 +426,11 @@ term_t Term_manager::mk_arithmetic_eq(term_t t1, term_t t2)
     auto p = term_to_poly(t1);
     auto other = term_to_poly(t2);
     p.merge(other, -1);
-    assert(p.size() != 0);
+    if (p.size() == 0)
+    {
+        // t1 and t2 are different representations of the same polynomial
+        return true_term;
+    }
     if (p.size() <= 2)
     {
         if (p.size() == 1)
@@ -648,6 +652,10 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
         auto const& coeff = term_table->coeff_of_product(poly_term);
+        if (coeff * val == 1) // (1/c) * (c * x) -> x
+        {
+            return var;
+        }
         return term_table->arithmetic_product(coeff * val, var);
     }
     case Kind::ARITH_POLY:
-- 
2.43.0


From b1c39331a00674858055dee63a9fd1d4696ff6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 06/25] fix: quote symbols that are not simple in printed
 models

get-model printed the name of a variable declared as |x y| without the bars,
which is not a well-formed definition.
---
 src/parser/Smt2_parser.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..54981f2 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -1,6 +1,10 @@
 #include "Smt2_parser.h"
 
+#include <algorithm>
+#include <cctype>
+#include <set>
 #include <stdexcept>
+#include <string_view>
 #include <fstream>
 #include <vector>
 
@@ -30,6 +34,31 @@ class Print_model final : public Default_model_visitor {
             output << std::get<Rational>(var);
     }
 
+    // print a symbol so that it reads back as the same symbol
+    void print_symbol(std::string_view name)
+    {
+        static std::set<std::string_view> const reserved{
+            "!", "_", "as", "let", "match", "par", "assert", "check-sat", "declare-const", 
+            "declare-fun", "declare-sort", "define-const", "define-fun", "define-sort", "echo", 
+            "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", 
+            "get-unsat-core", "get-value", "pop", "push", "reset", "set-info", "set-logic", 
+            "set-option",
+        };
+        auto is_simple_char = [](unsigned char c) {
+            return std::isalnum(c) || std::string_view{"~!@$%^&*+=<>.?/_-"}.find(c) != std::string_view::npos;
+        };
+
+        if (!name.empty() && !std::isdigit(static_cast<unsigned char>(name.front())) && 
+            std::ranges::all_of(name, is_simple_char) && !reserved.contains(name))
+        {
+            output << name;
+        }
+        else
+        {
+            output << "|" << name << "|";
+        }
+    }
+
     void print_type(type_t type) {
         switch (type) {
         default:
@@ -73,7 +102,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +123,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From 4a6041ffb8a33517a25d9e9a36fa079640d2cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 07/25] fix: propagate an equality of terms at the level of its
 own variables

The level was computed from both terms. If a variable occurs in both of them
and cancels out, the equality is assigned at a lower level, so that it became
unassigned by a backtrack which left all its variables assigned.
---
 src/uf/Uninterpreted_functions.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..a8e8012 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -305,7 +305,15 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // some variables of t and u may cancel out, so that the literal is already decided at 
+            // a lower level than t and u
+            int propagation_level = 0;
+            for (auto var_ord : p.vars)
+            {
+                auto level = trail.decision_level(Variable{var_ord, Variable::rational});
+                assert(level.has_value());
+                propagation_level = std::max<int>(propagation_level, level.value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From 8130feee9e73f044376731f88a3cbd5201f66823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 08/25] fix: start every check-sat from the current assertions
 only

The trail, the plugins, the mapping of terms to variables and the statistics of the previous check survived, so a second check-sat saw stale variables and values.
---
 src/Solver.cpp                |  2 ++
 src/Subsumption.cpp           |  2 ++
 src/Subsumption.h             |  7 +++++++
 src/Yaga.cpp                  |  1 +
 src/parser/Solver_wrapper.cpp | 14 +++++++++++++-
 src/parser/Solver_wrapper.h   |  7 +++++++
 6 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..7af426b 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -170,6 +170,8 @@ void Solver::init()
 
     // reset solver state
     total_conflicts = 0;
+    total_conflict_clauses = 0;
+    total_learned_clauses = 0;
     total_decisions = 0;
     total_restarts = 0;
     dispatcher.on_init(db(), trail());
diff --git a/src/Subsumption.cpp b/src/Subsumption.cpp
index 79e3aa3..3f08278 100644
--- a/src/Subsumption.cpp
+++ b/src/Subsumption.cpp
@@ -18,6 +18,8 @@ void Subsumption::minimize(Trail const& trail, Clause& clause)
     clause.erase(std::remove_if(clause.begin(), clause.end(), is_redundant), clause.end());
 }
 
+void Subsumption::on_init(Database&, Trail&) { old_size = 0; }
+
 void Subsumption::on_variable_resize(Variable::Type type, int num_vars)
 {
     if (type == Variable::boolean)
diff --git a/src/Subsumption.h b/src/Subsumption.h
index 2f932e4..d23d6b8 100644
--- a/src/Subsumption.h
+++ b/src/Subsumption.h
@@ -25,6 +25,13 @@ namespace yaga {
  */
 class Subsumption final : public Event_listener {
 public:
+    /** Forget which learned clauses have already been checked.
+     *
+     * @param db clause database
+     * @param trail current solver trail
+     */
+    void on_init(Database& db, Trail& trail) override;
+
     /** Allocate memory for internal structures.
      *
      * @param type type of variables
diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index 4f67b58..e5038f7 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -66,6 +66,7 @@ Yaga::Yaga(terms::Term_manager const& tm,
 
 void Yaga::init()
 {
+    smt.trail().clear();
     smt.db().learned().clear();
     smt.db().asserted().clear();
 }
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..a610e0d 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -13,6 +13,7 @@ Solver_wrapper::Solver_wrapper(terms::Term_manager& term_manager, Options const&
       solver(term_manager, internalizer_config.rational_vars(), internalizer_config.bool_vars()) {}
 
 void Solver_wrapper::set_logic(Initializer const& init) {
+    logic_initializer = &init;
     solver.set_logic(init, options);
 }
 
@@ -27,8 +28,13 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
+    // Cnfize and assert clauses to the solver, do not keep anything from previous checks
     solver.init();
+    if (logic_initializer)
+    {
+        solver.set_logic(*logic_initializer, options);
+    }
+    internalizer.reset();
 
     internalizer.visit(assertions);
 
@@ -341,6 +347,12 @@ void Internalizer_config::visit(term_t t)
     }
 }
 
+void Internalizer_config::reset()
+{
+    internal_rational_vars.clear();
+    internal_bool_vars.clear();
+}
+
 std::optional<Literal> Internalizer_config::get_literal_for(term_t t) const
 {
     auto it = internal_bool_vars.find(t);
diff --git a/src/parser/Solver_wrapper.h b/src/parser/Solver_wrapper.h
index fce7583..a1e432e 100644
--- a/src/parser/Solver_wrapper.h
+++ b/src/parser/Solver_wrapper.h
@@ -81,6 +81,10 @@ public:
 
     void visit(terms::term_t) override;
 
+    /** Forget variables and literals of all internalized terms
+     */
+    void reset() override;
+
     std::optional<Literal> get_literal_for(terms::term_t t) const;
 
     /** Get a range of boolean variables (pairs of `term_t` and `Literal`)
@@ -131,6 +135,9 @@ class Solver_wrapper
 
     Yaga solver;
 
+    // logic set by `set_logic()` or nullptr
+    Initializer const* logic_initializer = nullptr;
+
 public:
     Solver_wrapper(terms::Term_manager& term_manager, Options const& options);
 
-- 
2.43.0


From c2b3f7c9e3449986506116ce94043eedd6e29478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:38 +0000
Subject: [PATCH 09/25] fix: report an unknown symbol as an error instead of
 aborting

An input that ends inside a name leaves an unknown symbol behind. The assertion
then ended the process and lost the answers printed so far.
---
 src/parser/Parser_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 9180c6a..c901af6 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -42,7 +42,10 @@ term_t Parser_context::get_term_for_symbol(std::string const& symbol)
         return defined.body;
     }
     auto t = term_manager.get_term_by_name(symbol);
-    assert(t.has_value());
+    if (!t.has_value())
+    {
+        throw std::logic_error("Unknown symbol: " + symbol);
+    }
     return t.value();
 }
 
-- 
2.43.0


From 14098b4beba2c5c74c81d5954f8dda8d832eeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 10/25] fix: reduce a negative numerator in Long_fraction(word,
 uword) correctly

---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 08775e4..769efa9 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -646,7 +646,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = lword(n) / common; // not n / common: that divides unsigned numbers
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From 7afb4eedf4a4b77621e56b22d5e6507cc1aefab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 11/25] fix: Long_fraction::operator% of operands with
 different signs

---
 src/lra/Long_fraction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 769efa9..5214924 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -409,8 +409,9 @@ public:
     Long_fraction operator%(const Long_fraction& d) {
         assert(isInteger() && d.isInteger());
         if (wordPartValid() && d.wordPartValid()) {
-            uword w = absVal(num % d.num);  // Largest value is absVal(INT_MAX % INT_MIN) = INT_MAX
-            return (word)(d.num > 0 ? w : -w); // No overflow since 0 <= w <= INT_MAX
+            lword w = lword(num) % d.num; // Has the sign of num; lword since INT_MIN % -1 overflows
+            if (w != 0 && (w < 0) != (d.num < 0)) w += d.num;
+            return (word)w; // No overflow since abs(w) < abs(d.num)
         }
         Long_fraction r = (*this) / d;
         r = r.floor();
-- 
2.43.0


From a6a22e67fc1f1ff3f51240226f1b69d44a76e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 12/25] fix: gcd and lcm of negative Long_fractions

---
 src/lra/Long_fraction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lra/Long_fraction.cpp b/src/lra/Long_fraction.cpp
index 16cc1fe..a75478d 100644
--- a/src/lra/Long_fraction.cpp
+++ b/src/lra/Long_fraction.cpp
@@ -116,7 +116,7 @@ namespace yaga {
     Long_fraction gcd(Long_fraction const &a, Long_fraction const &b) {
         assert(a.isInteger() and b.isInteger());
         if (a.wordPartValid() && b.wordPartValid()) {
-            return Long_fraction(gcd(a.num, b.num));
+            return Long_fraction(gcd(absVal(a.num), absVal(b.num)));
         } else {
             a.force_ensure_mpq_valid();
             b.force_ensure_mpq_valid();
@@ -128,7 +128,7 @@ namespace yaga {
     Long_fraction lcm(Long_fraction const &a, Long_fraction const &b) {
         assert(a.isInteger() and b.isInteger());
         if (a.wordPartValid() && b.wordPartValid()) {
-            return lcm(a.num, b.num);
+            return lcm(absVal(a.num), absVal(b.num));
         } else {
             a.force_ensure_mpq_valid();
             b.force_ensure_mpq_valid();
-- 
2.43.0


From 9305a7c79f74b99f2a3015e1d0ab54bec06327db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 13/25] fix: divexact of INT_MIN and -1

---
 src/lra/Long_fraction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.cpp b/src/lra/Long_fraction.cpp
index a75478d..3ff4698 100644
--- a/src/lra/Long_fraction.cpp
+++ b/src/lra/Long_fraction.cpp
@@ -175,7 +175,9 @@ namespace yaga {
             word num = n.num;
             word den = d.num;
             word quo;
-            if (den != 0) {
+            if (den == -1) { // INT_MIN / -1 does not fit a word
+                return -n;
+            } else if (den != 0) {
                 quo = num / den;
                 return quo;
             } else {
-- 
2.43.0


From d8bf53e4f78a217b33df5e4363651a51de3ff6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 14/25] fix: do not allocate memory when a Long_fraction is
 destroyed

---
 src/lra/Long_fraction.cpp | 8 +++++---
 src/lra/Long_fraction.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lra/Long_fraction.cpp b/src/lra/Long_fraction.cpp
index 3ff4698..586cee4 100644
--- a/src/lra/Long_fraction.cpp
+++ b/src/lra/Long_fraction.cpp
@@ -20,16 +20,18 @@ namespace yaga {
     mpq_ptr Long_fraction::mpqPool::alloc() {
         mpq_ptr r;
         if (!pool.empty()) {
-            r = pool.top();
-            pool.pop();
+            r = pool.back();
+            pool.pop_back();
         } else {
+            if (pool.capacity() <= store.size())
+                pool.reserve(2 * store.size() + 8);
             r = store.emplace().get_mpq_t();
         }
         return r;
     }
 
     void Long_fraction::mpqPool::release(mpq_ptr ptr) {
-        pool.push(ptr);
+        pool.push_back(ptr);
     }
 
     Long_fraction::Long_fraction(const char *s, const int base) {
diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 5214924..f28f6fe 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -84,7 +84,7 @@ class Long_fraction
     class mpqPool
     {
         std::stack<mpq_class> store; // uses deque as storage to avoid realloc
-        std::stack<mpq_ptr, std::vector<mpq_ptr>> pool;
+        std::vector<mpq_ptr> pool; // has room for all of store so that release() never allocates
     public:
         mpq_ptr alloc();
         void release(mpq_ptr);
-- 
2.43.0


From 821f46394f5ffe2ee025860ea2024304af391880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 15/25] fix: decide an equality from bounds only if its
 variables have one value left

Bounds::is_implied looked at a single bound of each unassigned variable: with
x <= 5 it took (= x 5) to be true, and with x >= 4 it took (= x 5) to be false.
Unassigned atoms were then propagated to the wrong value (prop_unassigned).
---
 src/lra/Bounds.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lra/Bounds.cpp b/src/lra/Bounds.cpp
index 222b14d..e30a200 100644
--- a/src/lra/Bounds.cpp
+++ b/src/lra/Bounds.cpp
@@ -217,6 +217,18 @@ bool Bounds::is_implied(Models const& models, Constraint const& cons)
         {
             bound -= *coef_it * models.owned().value(*var_it);
         }
+        else if (cons.pred() == Order_predicate::eq)
+        {
+            // one bound alone decides neither an equality nor its negation: the variable has to
+            // have exactly one value left
+            auto lb = bounds[*var_it].lower_bound(models);
+            auto ub = bounds[*var_it].upper_bound(models);
+            if (!lb || !ub || lb->value() != ub->value())
+            {
+                return false;
+            }
+            bound -= *coef_it * lb->value();
+        }
         else
         {
             Implied_value<Rational> const* bound_ptr = nullptr;
-- 
2.43.0


From fecb436bf394e52be78b7c2c60d6e2ce8078fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 16/25] fix: handle Boolean arguments and results of
 uninterpreted functions

Conflict clauses ignored Boolean arguments and results (wrong unsat), negated
applications and arguments were not found or read with the wrong polarity and
the constant false as an argument was rejected.
---
 src/parser/Solver_wrapper.cpp      |  3 ++-
 src/uf/Uninterpreted_functions.cpp | 41 ++++++++++++++++++++++++++----
 src/uf/Uninterpreted_functions.h   |  7 +++++
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index a610e0d..cac0f31 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -229,6 +229,7 @@ void Internalizer_config::visit(term_t t)
         return;
     }
     case terms::Kind::APP_TERM: {
+        t = term_manager.positive_term(t);
         terms::type_t term_type = term_manager.get_type(t);
         Variable::Type var_type;
         switch (term_type) {
@@ -331,7 +332,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (term_manager.positive_term(t) != terms::true_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index a8e8012..bd9b5a7 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,10 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        auto maybe_lit = term_to_literal(t);
+        if (maybe_lit.has_value())
         {
-            return found->second.var();
+            return maybe_lit.value().var();
         }
         break;
     }
@@ -87,6 +86,22 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    auto key_equal = [positive = term_manager.positive_term(t)](std::pair<terms::term_t, Literal> p) { return p.first == positive; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+
+    Literal lit = found->second;
+    if (term_manager.is_negated(t))
+    {
+        lit.negate();
+    }
+    return lit;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -168,7 +183,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
             bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = term_to_literal(t).value().is_negation() ? !bool_model_value : bool_model_value;
             break;
         }
         }
@@ -270,6 +285,22 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type: {
+        if (t == u) {
+            return;
+        }
+
+        // t and u do not need a new literal, it is sufficient to exclude their current values
+        auto const& bool_model = trail.model<bool>(Variable::boolean);
+        for (terms::term_t term : {t, u}) {
+            std::optional<Literal> maybe_lit = term_to_literal(term);
+            if (maybe_lit.has_value()) {
+                Variable var = maybe_lit.value().var();
+                result_clause.push_back(bool_model.value(var.ord()) ? ~Literal(var.ord()) : Literal(var.ord()));
+            }
+        }
+        break;
+    }
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..897fb31 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Check if there is a Literal mapped to boolean term @p t
+     *
+     * @param t term to check (it can be negated)
+     * @return Literal which is true iff @p t is true or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From c2cd3d89d0357bcc3b6f54f3654d4db70ba08cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 17/25] fix: report ill-formed terms as errors instead of
 asserting

Terms with a wrong number of arguments or arguments of a wrong type, non-linear
products and divisions by zero aborted the process in debug builds and were
silently read as a different term in release builds. Products with more than
two arguments are accepted if they are linear.
---
 src/terms/Term_manager.cpp | 69 +++++++++++++++++++++++++++++++-------
 src/terms/Term_manager.h   |  4 +++
 2 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index e091c7a..d09e148 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -159,26 +159,49 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
     }
 }
 
+void Term_manager::check_arg_count(std::string const& op, std::span<const term_t> args, std::size_t min_count, std::size_t max_count) const
+{
+    if (args.size() < min_count || args.size() > max_count)
+    {
+        throw std::logic_error("Wrong number of arguments of " + op);
+    }
+}
+
+void Term_manager::check_arg_types(std::string const& op, std::span<const term_t> args, type_t type) const
+{
+    for (term_t arg : args)
+    {
+        if (get_type(arg) != type)
+        {
+            throw std::logic_error("Wrong type of an argument of " + op);
+        }
+    }
+}
+
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
     if (op == ">=")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_geq(args[0], args[1]);
     }
     else if (op == "<=")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_leq(args[0], args[1]);
     }
     else if (op == "<")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_lt(args[0], args[1]);
     }
     else if (op == ">")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_gt(args[0], args[1]);
     }
     else if (op == "=")
@@ -187,59 +210,70 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "or")
     {
+        check_arg_types(op, args, types::bool_type);
         return mk_or(args);
     }
     else if (op == "and")
     {
+        check_arg_types(op, args, types::bool_type);
         return mk_and(args);
     }
     else if (op == "=>")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::bool_type);
         return mk_implies(args[0], args[1]);
     }
     else if (op == "not")
     {
-        assert(args.size() == 1);
+        check_arg_count(op, args, 1, 1);
+        check_arg_types(op, args, types::bool_type);
         return terms::opposite_term(args[0]);
     }
     else if (op == "-")
     {
+        check_arg_count(op, args, 1, 2);
+        check_arg_types(op, args, types::real_type);
         if (args.size() == 1)
         {
             return mk_unary_minus(args[0]);
         }
         else
         {
-            assert(args.size() == 2);
             return mk_arithmetic_minus(args[0], args[1]);
         }
     }
     else if (op == "+")
     {
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_plus(args);
     }
     else if (op == "*")
     {
+        check_arg_types(op, args, types::real_type);
         return mk_arithmetic_times(args);
     }
     else if (op == "/")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::real_type);
         return mk_divides(args[0], args[1]);
     }
     else if (op == "ite")
     {
-        assert(args.size() == 3);
+        check_arg_count(op, args, 3, 3);
+        check_arg_types(op, args.subspan(0, 1), types::bool_type);
         return mk_ite(args[0], args[1], args[2]);
     }
     else if (op == "xor")
     {
-        assert(args.size() == 2);
+        check_arg_count(op, args, 2, 2);
+        check_arg_types(op, args, types::bool_type);
         return mk_xor(args[0], args[1]);
     }
     else if (op == "distinct")
     {
+        check_arg_count(op, args, 2, args.size());
         std::vector<term_t> distinct_terms;
         for (std::size_t i = 0; i < args.size(); ++i)
         {
@@ -617,10 +651,12 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     {
         return args[0];
     }
-    assert(args.size() == 2);
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
-    assert(args.end() - pit <= 1);
+    if (args.end() - pit > 1)
+    {
+        throw std::logic_error("Non-linear multiplication is not supported");
+    }
 
     // fold all constants into a single value
     Rational val = 1;
@@ -673,8 +709,15 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
 
 term_t Term_manager::mk_divides(term_t t1, term_t t2)
 {
-    assert(term_table->is_arithmetic_constant(t2));
+    if (!term_table->is_arithmetic_constant(t2))
+    {
+        throw std::logic_error("Division by a non-constant term is not supported");
+    }
     Rational const& value = term_table->arithmetic_constant_value(t2);
+    if (value == 0)
+    {
+        throw std::logic_error("Division by zero is not supported");
+    }
     if (term_table->is_arithmetic_constant(t1))
     {
         return term_table->arithmetic_constant(term_table->arithmetic_constant_value(t1) / value);
diff --git a/src/terms/Term_manager.h b/src/terms/Term_manager.h
index 313d668..827aa0e 100644
--- a/src/terms/Term_manager.h
+++ b/src/terms/Term_manager.h
@@ -180,6 +180,10 @@ private:
     // This includes variables (KIND::UNINTERPRETED_TERM) and ITEs
     [[nodiscard]] bool is_var_like(term_t t) const;
 
+    // Throw std::logic_error if the operation cannot be applied to the arguments
+    void check_arg_count(std::string const& op, std::span<const term_t> args, std::size_t min_count, std::size_t max_count) const;
+    void check_arg_types(std::string const& op, std::span<const term_t> args, type_t type) const;
+
 };
 } // namespace yaga::terms
 
-- 
2.43.0


From e17b7cf898d1c4d005df8659c112a255f864a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 18/25] fix: report ill-formed commands as errors instead of
 asserting

Wrong numbers or types of arguments of declared and defined functions,
redeclared symbols, definitions and assertions of a wrong type, misplaced
parentheses in let and a (check-sat) without (set-logic) crashed the process.
---
 src/Yaga.h                      |  4 +--
 src/parser/Parser_context.cpp   | 58 ++++++++++++++++++++++++++-------
 src/parser/Parser_context.h     |  6 ++++
 src/parser/Smt2_parser.cpp      |  4 +++
 src/parser/Smt2_term_parser.cpp |  5 ++-
 src/parser/Solver_wrapper.cpp   | 10 +++---
 6 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index da2588c..29b556b 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -216,10 +216,10 @@ private:
     Solver smt;
 
     // pointer to the LRA plugin or nullptr if this solver does not support LRA
-    Linear_arithmetic* lra;
+    Linear_arithmetic* lra = nullptr;
 
     // pointer to the UF plugin or nullptr if this solver does not support UF
-    Uninterpreted_functions* uf;
+    Uninterpreted_functions* uf = nullptr;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_mapping;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, Literal> > bool_mapping;
 };
diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index c901af6..363c7a2 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -37,10 +37,17 @@ term_t Parser_context::get_term_for_symbol(std::string const& symbol)
     }
     if (defined_functions.has(symbol))
     {
-        auto defined = defined_functions.get(symbol);
-        assert(defined.signature.args.empty());
+        auto const& defined = defined_functions.get(symbol);
+        if (!defined.signature.args.empty())
+        {
+            throw std::logic_error("Wrong number of arguments of " + symbol);
+        }
         return defined.body;
     }
+    if (declared_functions.has(symbol))
+    {
+        throw std::logic_error("Wrong number of arguments of " + symbol);
+    }
     auto t = term_manager.get_term_by_name(symbol);
     if (!t.has_value())
     {
@@ -78,8 +85,17 @@ void Parser_context::model(Default_model_visitor& visitor)
     solver.model(visitor);
 }
 
+void Parser_context::check_new_symbol(std::string const& name)
+{
+    if (defined_functions.has(name) || term_manager.get_term_by_name(name).has_value())
+    {
+        throw std::logic_error("Symbol is already declared: " + name);
+    }
+}
+
 term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::string const& name)
 {
+    check_new_symbol(name);
     term_t term = term_manager.mk_uninterpreted_constant(sort);
     term_manager.set_term_name(term, name);
     return term;
@@ -87,6 +103,7 @@ term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::s
 
 void Parser_context::declare_uninterpreted_function(terms::type_t ret_type, std::vector<terms::type_t> && arg_sorts, std::string const& name)
 {
+    check_new_symbol(name);
     term_t fnc_term = term_manager.mk_uninterpreted_constant(ret_type);
     term_manager.set_term_name(fnc_term, name);
 
@@ -110,21 +127,29 @@ term_t Parser_context::resolve_term(std::string const& name, std::vector<term_t>
         return resolve_defined_function(name, args);
     } else if (declared_functions.has(name))
     {
-        auto declared_function = declared_functions.get(name);
-        auto expected_count = declared_function.arg_types.size();
-        assert(expected_count == args.size()); (void) expected_count;
-
-        for (size_t i = 0; i < args.size(); ++i)
-        {
-            type_t expected_type = declared_function.arg_types[i];
-            assert(expected_type == term_manager.get_type(args[i])); (void) expected_type;
-        }
+        auto const& declared_function = declared_functions.get(name);
+        check_args(name, args, declared_function.arg_types);
 
         return term_manager.mk_app(name, declared_function.return_type, args);
     }
     return term_manager.mk_term(name, args, true);
 }
 
+void Parser_context::check_args(std::string const& name, std::span<const term_t> args, std::span<const type_t> expected_types)
+{
+    if (args.size() != expected_types.size())
+    {
+        throw std::logic_error("Wrong number of arguments of " + name);
+    }
+    for (size_t i = 0; i < args.size(); ++i)
+    {
+        if (term_manager.get_type(args[i]) != expected_types[i])
+        {
+            throw std::logic_error("Wrong type of an argument of " + name);
+        }
+    }
+}
+
 std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 {
     std::vector<term_t> ret;
@@ -140,6 +165,11 @@ std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 void Parser_context::store_defined_fun(std::string const& name, term_t definition,
                                        std::vector<term_t> && formal_args, type_t return_sort)
 {
+    check_new_symbol(name);
+    if (term_manager.get_type(definition) != return_sort)
+    {
+        throw std::logic_error("Wrong type of the definition of " + name);
+    }
     defined_functions.insert(name, Function_template(name, std::move(formal_args), return_sort, definition));
 }
 
@@ -158,6 +188,12 @@ term_t resolve(Function_template const& function_template, std::span<term_t> arg
 term_t Parser_context::resolve_defined_function(std::string const& name, std::span<term_t> args)
 {
     auto const& function_template = defined_functions.get(name);
+    std::vector<type_t> expected_types;
+    for (term_t arg : function_template.signature.args)
+    {
+        expected_types.push_back(term_manager.get_type(arg));
+    }
+    check_args(name, args, expected_types);
     return resolve(function_template, args, term_manager);
 }
 
diff --git a/src/parser/Parser_context.h b/src/parser/Parser_context.h
index 4a11127..0b72646 100644
--- a/src/parser/Parser_context.h
+++ b/src/parser/Parser_context.h
@@ -205,6 +205,12 @@ private:
 
     Solver_wrapper solver;
 
+    // throw std::logic_error if a constant or function called `name` already exists
+    void check_new_symbol(std::string const& name);
+
+    // throw std::logic_error if function `name` cannot be applied to `args`
+    void check_args(std::string const& name, std::span<const term_t> args, std::span<const type_t> expected_types);
+
     term_t resolve_defined_function(std::string const& name, std::span<term_t> args);
 };
 
diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 54981f2..be86941 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -231,6 +231,10 @@ bool Smt2_command_context::parse_command()
         try
         {
             term_t term = term_parser.parse_term();
+            if (term_manager.get_type(term) != terms::types::bool_type)
+            {
+                throw std::logic_error("Asserted term is not Boolean");
+            }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
             output << "(error \"" << e.what() << "\")" << std::endl;
diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index e8ca346..90f32bb 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -104,12 +104,11 @@ term_t Smt2_term_parser::parse_term() {
         break;
         case Token::RPAREN_TOK:
         {
-            if (ctx_stack.empty())
+            // should only be here if we are expecting arguments
+            if (ctx_stack.empty() || get<ParseCtx>(ctx_stack.back()) != ParseCtx::NEXT_ARG)
             {
                 lexer.unexpected_token_error(token);
             }
-            // should only be here if we are expecting arguments
-            assert(get<ParseCtx>(ctx_stack.back()) == ParseCtx::NEXT_ARG);
             // Construct the application term specified by ctx_stack.back()
             auto& op = get<OpInfo>(ctx_stack.back());
             ret = make_term(op, std::move(get<arg_list_t>(ctx_stack.back())));
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index cac0f31..e336b3d 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -23,6 +23,11 @@ bool Solver_wrapper::has_uf() {
 
 Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
 {
+    if (!logic_initializer)
+    {
+        throw std::logic_error("use (set-logic) before (check-sat)");
+    }
+
     if (std::ranges::any_of(assertions, [](term_t t) { return t == terms::false_term; }))
     {
         return Solver_answer::UNSAT;
@@ -30,10 +35,7 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
 
     // Cnfize and assert clauses to the solver, do not keep anything from previous checks
     solver.init();
-    if (logic_initializer)
-    {
-        solver.set_logic(*logic_initializer, options);
-    }
+    solver.set_logic(*logic_initializer, options);
     internalizer.reset();
 
     internalizer.visit(assertions);
-- 
2.43.0


From 20b9eb1c5e3caf87eff31cbba1e41132831df73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 19/25] fix: keep zero bytes in the text of a token

---
 src/parser/Flex_lexer.cpp | 4 ++--
 src/parser/Flex_lexer.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/Flex_lexer.cpp b/src/parser/Flex_lexer.cpp
index 3d3c3e3..aad3924 100644
--- a/src/parser/Flex_lexer.cpp
+++ b/src/parser/Flex_lexer.cpp
@@ -31,9 +31,9 @@ Token Flex_lexer::next_token()
     return lex_scan();
 }
 
-char const* Flex_lexer::token_string()
+std::string Flex_lexer::token_string()
 {
-    return YYText();
+    return std::string(YYText(), YYLeng());
 }
 
 
diff --git a/src/parser/Flex_lexer.h b/src/parser/Flex_lexer.h
index 912f340..f4cd885 100644
--- a/src/parser/Flex_lexer.h
+++ b/src/parser/Flex_lexer.h
@@ -45,7 +45,7 @@ public:
     /**
      * Gets the string representation of the last consumed token
      */
-    char const* token_string();
+    std::string token_string();
 
 };
 
-- 
2.43.0


From 312b37c67fe9ecfdf81f37a5333ea774dc643450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 20/25] fix: keep the queue of the decision heuristic in step
 with reset and rescaled scores

---
 src/variable_order/Generalized_vsids.cpp | 9 ++++++---
 src/variable_order/Generalized_vsids.h   | 7 ++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1485d1a..6416d47 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,14 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    for (int type = 0; type < static_cast<int>(vsids.size()); ++type)
     {
-        for (auto& score : scores)
+        for (int ord = 0; ord < static_cast<int>(vsids[type].size()); ++ord)
         {
-            score = 0.0f;
+            Variable var{ord, static_cast<Variable::Type>(type)};
+            score(var) = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..d2eb3d8 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -165,11 +165,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From 70845dc7a9da5d31a646e7dc3aefc72193005a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 21/25] fix: substitute variables simultaneously also where a
 term collapses

---
 src/terms/Term_rewriter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 8a07331..379c26b 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -70,7 +70,9 @@ public:
                 if (is_negated(current_term)) { newTerm = opposite_term(newTerm); }
             }
             aux_args.clear();
-            term_t rewritten = cfg.rewrite(newTerm);
+            // a rebuilt term that collapsed to one of its rewritten parts must not be rewritten again
+            bool collapsed = needs_change and tm.get_args(newTerm).empty();
+            term_t rewritten = collapsed ? newTerm : cfg.rewrite(newTerm);
             if (rewritten != newTerm or needs_change) {
                 assert(tm.get_type(current_term) == tm.get_type(rewritten));
                 substitutions.insert({current_term, rewritten});
-- 
2.43.0


From fbb13643e998f0e82cf3bc4c528bad7886819588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 22/25] fix: read the value of set-info and set-option as an
 s-expression

A parenthesis was taken for the value: (set-info :status () was accepted, and a
value in parentheses, as in (set-info :authors (a b)), was refused.
---
 src/parser/Smt2_term_parser.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index 90f32bb..22b71e3 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -291,10 +291,20 @@ std::string Smt2_term_parser::parse_keyword()
 
 std::string Smt2_term_parser::parse_sexpr()
 {
-    // TODO: Check the token?
-    Token tok = lexer.next_token();
-    (void)tok;
-    return lexer.token_string();
+    // a single token or a list of s-expressions in parentheses
+    std::string result;
+    int depth = 0;
+    do
+    {
+        Token tok = lexer.next_token();
+        if (tok == Token::EOF_TOK || (tok == Token::RPAREN_TOK && depth == 0))
+        {
+            lexer.unexpected_token_error(tok);
+        }
+        depth += tok == Token::LPAREN_TOK ? 1 : tok == Token::RPAREN_TOK ? -1 : 0;
+        result += (result.empty() ? "" : " ") + lexer.token_string();
+    } while (depth > 0);
+    return result;
 }
 
 std::vector<Sorted_var> Smt2_term_parser::parse_sorted_var_list()
-- 
2.43.0


From b110aa1ddcd0f83bf36bf0cad9d86eecb3526db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 23/25] fix: write a quotation mark in an error message twice

---
 src/parser/Smt2_parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index be86941..836b547 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -237,7 +237,13 @@ bool Smt2_command_context::parse_command()
             }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
-            output << "(error \"" << e.what() << "\")" << std::endl;
+            // a quotation mark in the message (from a quoted symbol) is written twice
+            output << "(error \"";
+            for (char c : std::string_view{e.what()})
+            {
+                output << (c == '"' ? "\"\"" : std::string(1, c));
+            }
+            output << "\")" << std::endl;
         }
     }
     break;
-- 
2.43.0


From 75d6c14f363f407a926a8e4abdb09c24edc89e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 24/25] fix: refuse what is no literal in a clause file

The rest of a line after something that is no number was skipped, so that the
verdict was about other clauses; a negative number of clauses was taken for a
file without clauses, a negative number of variables ended in an uncaught exception.
---
 src/sat_solver.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sat_solver.cpp b/src/sat_solver.cpp
index a7235bf..707aaed 100644
--- a/src/sat_solver.cpp
+++ b/src/sat_solver.cpp
@@ -70,13 +70,27 @@ int main(int argc, char** argv)
                     << " Expected: 'p cnf [num_vars] [num_clauses]'\n";
                 return -1;
             }
+            if (num_vars < 0 || num_clauses < 0)
+            {
+                std::cerr << "Error: negative number in the DIMACS problem line.\n";
+                return -1;
+            }
             solver.trail().set_model<bool>(Variable::boolean, num_vars);
         }
+        else if (line.starts_with('%')) // end of the clauses
+        {
+            break;
+        }
         else
         {
             int var;
-            while (stream >> var)
+            while (!(stream >> std::ws).eof())
             {
+                if (!(stream >> var))
+                {
+                    std::cerr << "Error: not a literal in line '" << line << "'\n";
+                    return -1;
+                }
                 if (!is_initialized)
                 {
                     std::cerr << "Error: clause before DIMACS problem line.\n";
-- 
2.43.0


From 59b2d0ce668c2304a4b02dcce55e53434e3988c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 25/25] fix: accept linear constraints without variables
 through the facade

They are normalized to 0 == 0, but the plugin tried to watch their variables (an assertion
failure) and the search could have made the literal false.
---
 src/Yaga.h                  | 12 ++++++++++--
 src/lra/Linear_arithmetic.h |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index 29b556b..60e133d 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -188,8 +188,16 @@ public:
             }
         }
 
-        return lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
-                               std::forward<Coef_range>(coef), pred, rhs).lit();
+        auto num_bool_vars = smt.trail().model(Variable::boolean).num_vars();
+        auto cons = lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
+                                    std::forward<Coef_range>(coef), pred, rhs);
+
+        // a constraint without variables is normalized to `0 == 0`, which always holds
+        if (cons.empty() && smt.trail().model(Variable::boolean).num_vars() != num_bool_vars)
+        {
+            assert_clause(Literal{cons.lit().var().ord()});
+        }
+        return cons.lit();
     }
 
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_vars();
diff --git a/src/lra/Linear_arithmetic.h b/src/lra/Linear_arithmetic.h
index 7286aac..99c70f6 100644
--- a/src/lra/Linear_arithmetic.h
+++ b/src/lra/Linear_arithmetic.h
@@ -120,7 +120,10 @@ public:
                 }
             }
             add_variable(trail, models, cons.lit().var());
-            watch(cons, models.owned());
+            if (!cons.empty())
+            {
+                watch(cons, models.owned());
+            }
         }
         return cons;
     }
-- 
2.43.0

