From fb03660de158aa6f82ece52f08833ac3830c323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 01/45] fix: presolve fixes a variable without any sensitivity
 within its bounds

A variable which appears in neither constraints nor the objective was fixed
at 0 even if 0 is outside of its bounds.
---
 printemps/preprocess/problem_size_reducer.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..94ce617 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,20 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            /**
+             * NOTE: Zero may be out of the bounds of the variable.
+             */
+            const auto FIX_VALUE =
+                std::min(std::max(static_cast<T_Variable>(0),
+                                  a_variable_ptr->lower_bound()),
+                         a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From a202270f6fcd0c503f2110052bb629f953ef6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:04 +0000
Subject: [PATCH 02/45] fix: presolve keeps a singleton equality which no value
 can satisfy

ax+b=0 was removed after fixing x at the truncated value of -b/a even if it is
not integer or out of the bounds of x, so that an unsatisfiable equality was
reported as satisfied. -b/a slightly less than an integer due to floating point
error was also fixed at a wrong value.
---
 printemps/preprocess/problem_size_reducer.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 94ce617..de14df3 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -304,16 +304,25 @@ class ProblemSizeReducer {
                 /**
                  * If the singleton constraint is defined by an equality as
                  * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * The constraint is kept if -b/a is not integer, because no
+                 * value of the variable can satisfy it.
                  */
+                const auto FIX_VALUE = std::round(bound_temp);
+                if (fabs(coefficient * (FIX_VALUE - bound_temp)) >
+                    constant::EPSILON) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
                         "variable " +
                         variable_ptr->name() + " by " +
-                        std::to_string(bound_temp) + ".",
+                        std::to_string(FIX_VALUE) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(FIX_VALUE);
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
-- 
2.43.0


From 711d4dfcaf9e9585c5b5aca4eb37d332157bf3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:03 +0000
Subject: [PATCH 03/45] fix: online bounding uses the objective value with the
 sign of the model

For maximization the incumbent holder stores the negated objective value, so
that the bounds were tightened by a wrong objective cut.
---
 .../tabu_search/controller/tabu_search_controller.h      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..dce7949 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -956,9 +956,14 @@ class TabuSearchController
                 this->m_option.preprocess.is_enabled_online_bounding &&
                 state.current_is_feasible_incumbent_updated &&
                 !state.previous_is_feasible_incumbent_updated) {
+                /**
+                 * NOTE: The incumbent holder stores the objective value as
+                 * minimization problem.
+                 */
                 this->update_variable_bounds(
-                    this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                    this->m_model_ptr->sign() *
+                        this->m_global_state_ptr->incumbent_holder
+                            .feasible_incumbent_objective(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From 656b8c167e480412f7e885960fb3ffd041723e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:04 +0000
Subject: [PATCH 04/45] fix: tabu search compares the incumbent and the dual
 bound in the same sign

For maximization a suboptimal solution was declared to be optimal if the
negated incumbent objective happened to be equal to the dual bound.
---
 printemps/solver/tabu_search/core/tabu_search_core.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 454439c..f5f5ab5 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -150,9 +150,14 @@ class TabuSearchCore {
         const auto& STATE = m_state_manager.state();
 
         if (STATE.number_of_moves > 0) {
+            /**
+             * NOTE: The incumbent objective is stored as minimization problem
+             * while the dual bound is stored with its original sign.
+             */
             if (fabs(m_global_state_ptr->incumbent_holder
                          .feasible_incumbent_objective() -
-                     m_global_state_ptr->incumbent_holder.dual_bound()) <
+                     m_model_ptr->sign() *
+                         m_global_state_ptr->incumbent_holder.dual_bound()) <
                 constant::EPSILON) {
                 m_state_manager.set_termination_status(
                     TabuSearchCoreTerminationStatus::OPTIMAL);
-- 
2.43.0


From 942c1f4d32ca9539c53945832d0a4d06a11d67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:02 +0000
Subject: [PATCH 05/45] fix: verifier checks binary variables against their
 bounds

A binary variable whose bounds are [0, 0] or [1, 1] kept a value out of the
bounds, e.g. if presolve tightened the bounds and then fixed the variable at
the other value, and an infeasible problem was reported as feasible.
---
 printemps/preprocess/verifier.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..3243881 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -352,7 +352,12 @@ class Verifier {
 
         for (auto &&variable_ptr :
              m_model_ptr->variable_type_reference().binary_variable_ptrs) {
-            if (variable_ptr->value() == 0 || variable_ptr->value() == 1) {
+            /**
+             * NOTE: The bounds of a binary variable can also be [0, 0] or
+             * [1, 1].
+             */
+            if (variable_ptr->value() >= variable_ptr->lower_bound() &&
+                variable_ptr->value() <= variable_ptr->upper_bound()) {
                 continue;
             }
             if (variable_ptr->is_fixed()) {
-- 
2.43.0


From 831571b12d666080e417b33475d0a10c0e0c27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:32 +0000
Subject: [PATCH 06/45] fix: local search does not combine moves which share a
 variable

Selection moves for the same selection without any enabled related constraint
were combined into a move which selects more than one variables and counts the
change of the deselected variable repeatedly.
---
 .../local_search/core/local_search_core.h     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..16b2903 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -470,6 +470,8 @@ class LocalSearchCore {
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
                                                      constraint_ptrs;
+        std::unordered_set<model_component::Variable<T_Variable, T_Expression>*>
+                                                     variable_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +591,7 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            variable_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,10 +623,26 @@ class LocalSearchCore {
                     }
                 }
 
+                /**
+                 * NOTE: Selection moves can share their variables even if they
+                 * do not have any common enabled constraint.
+                 */
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (variable_ptrs.find(alteration.first) !=
+                        variable_ptrs.end()) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    variable_ptrs.insert(alteration.first);
+                }
+
                 move.alterations.insert(move.alterations.end(),
                                         move_ptr->alterations.begin(),
                                         move_ptr->alterations.end());
-- 
2.43.0


From c5e4ccd621e041fa878d0f67645b1b2d62990af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:42 +0000
Subject: [PATCH 07/45] fix: presolve keeps preferable variables of set
 covering constraints

In removing redundant set variables, a variable which belongs only to set
covering constraints (or to no constraint) was fixed at 0 even if its value 1
improves the objective, and a variable fixed at 1 by the user was overwritten.
---
 printemps/preprocess/problem_size_reducer.h | 28 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index de14df3..70fbf06 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -685,11 +685,31 @@ class ProblemSizeReducer {
                 }
 
                 /**
-                 * If the variable j is fixed at 0, the following procedure can
-                 * be skipped.
+                 * If the variable j is fixed, the following procedure can be
+                 * skipped.
                  */
-                if (variable_ptrs[j]->is_fixed() &&
-                    variable_ptrs[j]->value() == 0) {
+                if (variable_ptrs[j]->is_fixed()) {
+                    j++;
+                    continue;
+                }
+
+                /**
+                 * If the variable j does not belong to any set partitioning or
+                 * set packing constraint and its value 1 is preferable for the
+                 * objective function, it is not redundant even if its
+                 * constraint coefficient pattern is same as that of i.
+                 */
+                if (std::none_of(
+                        variable_ptrs[j]->related_constraint_ptrs().begin(),
+                        variable_ptrs[j]->related_constraint_ptrs().end(),
+                        [](const auto &a_CONSTRAINT_PTR) {
+                            return a_CONSTRAINT_PTR->sense() !=
+                                   model_component::ConstraintSense::Greater;
+                        }) &&
+                    (variable_ptrs[j]->related_constraint_ptrs().empty() ||
+                     variable_ptrs[j]->objective_sensitivity() *
+                             m_model_ptr->sign() <
+                         0)) {
                     j++;
                     continue;
                 }
-- 
2.43.0


From 5e114cdf95972d7a01f079b937c2228b32e6022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:59 +0000
Subject: [PATCH 08/45] fix: presolve does not overwrite fixed variables in
 removing set constraints

A variable fixed at 1 by the user was silently re-fixed at 0 by removing
redundant set constraints, so that the infeasible fixing was ignored.
---
 printemps/preprocess/problem_size_reducer.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 70fbf06..8f4e502 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -1194,6 +1194,22 @@ class ProblemSizeReducer {
                     }
                 }
 
+                /**
+                 * If a variable which must be zero has been fixed at nonzero
+                 * value, the constraint i is not redundant but infeasible.
+                 */
+                if (is_included) {
+                    for (const auto &variable_ptr : variable_ptr_sets[i]) {
+                        if (variable_ptr_sets[j].find(variable_ptr) ==
+                                variable_ptr_sets[j].end() &&
+                            variable_ptr->is_fixed() &&
+                            variable_ptr->value() != 0) {
+                            is_included = false;
+                            break;
+                        }
+                    }
+                }
+
                 if (is_included) {
                     constraint_ptrs[i]->disable();
                     utility::print_message(  //
-- 
2.43.0


From 479069f6b2405dbfe5e28ba070be9cc8876cf650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:37 +0000
Subject: [PATCH 09/45] fix: fixed term value of an expression is not truncated
 to integer

The value of fixed terms was accumulated in an integer, so that presolve fixed
or bounded variables at wrong values if a coefficient is not integer.
---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From 2ef48e2bdb4ea0dbfd819c17fc63d1c58e3b2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:00 +0000
Subject: [PATCH 10/45] fix: constraint properties are updated together with
 the constraint type

The flags of binary variables and coefficients were left stale after the
elimination of dependent variables, by which a constraint over non-binary
variables could be taken for a selection constraint.
---
 printemps/model_component/constraint.h | 61 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..85bd09f 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -234,6 +234,35 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         m_negative_part    = 0;
         m_is_enabled       = true;
 
+        this->setup_structural_property();
+        this->clear_constraint_type();
+
+        switch (m_sense) {
+            case ConstraintSense::Less: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = false;
+                break;
+            }
+            case ConstraintSense::Equal: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            case ConstraintSense::Greater: {
+                m_is_less_or_equal    = false;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            default: {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Constraint sense is invalid."));
+            }
+        }
+    }
+
+    /*************************************************************************/
+    inline void setup_structural_property(void) {
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,36 +301,18 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
-
-        this->clear_constraint_type();
-
-        switch (m_sense) {
-            case ConstraintSense::Less: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = false;
-                break;
-            }
-            case ConstraintSense::Equal: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            case ConstraintSense::Greater: {
-                m_is_less_or_equal    = false;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            default: {
-                throw std::logic_error(utility::format_error_location(
-                    __FILE__, __LINE__, __func__,
-                    "Constraint sense is invalid."));
-            }
-        }
     }
 
     /*************************************************************************/
     inline void setup_constraint_type(void) {
         this->clear_constraint_type();
+
+        /**
+         * NOTE: The expression and the senses of the variables could be changed
+         * after the setup, e.g. by eliminating dependent variables.
+         */
+        this->setup_structural_property();
+
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
             m_is_singleton = true;
-- 
2.43.0


From 9f5b3630f91eb60f6c768efd830b2f6701dc4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:02 +0000
Subject: [PATCH 11/45] fix: sparse matrix without columns has a norm

PDLP crashed for models without enabled constraints since the transposed
coefficient matrix has no column.
---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..51b569a 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one =
+            c_temp.empty() ? 0.0
+                           : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From c77f6b8bd64d2d3070f3b395ae33e41a9729edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:02 +0000
Subject: [PATCH 12/45] fix: exported LP instance includes the objective
 constant

The dual bound given by PDLP lacked the constant term of the objective
function.
---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..d5f0473 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1463,7 +1463,7 @@ class Model {
         using utility::sparse::SparseMatrix;
         using utility::sparse::Vector;
 
-        double objective_offset = 0.0;
+        double objective_offset = m_objective.expression().constant_value();
         for (const auto &variable_ptr :
              m_variable_reference.fixed_variable_ptrs) {
             objective_offset +=
-- 
2.43.0


From 4e30012ed3fabd3205afa1578488bb26b1c7617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:37 +0000
Subject: [PATCH 13/45] fix: variables with coincident bounds are fixed also
 without presolve

A binary variable with the bounds [0, 0] or [1, 1] was flipped out of them
when presolve was disabled.
---
 printemps/model/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index d5f0473..b47e184 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -689,6 +689,14 @@ class Model {
             }
 
             m_problem_size_reducer.reduce_problem_size(a_IS_ENABLED_PRINT);
+        } else {
+            /**
+             * A variable of which lower and upper bounds coincide must be
+             * fixed also without presolve. Otherwise, it can be flipped.
+             */
+            m_problem_size_reducer.setup(this);
+            m_problem_size_reducer.remove_implicit_fixed_variables(
+                a_IS_ENABLED_PRINT);
         }
 
         /**
-- 
2.43.0


From a5e6c39d9bde5de0c7c76738c3cea5ccf2bed9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 14/45] fix: presolve tightens bounds with tolerance and within
 the limit

- A bound computed as e.g. 2.9999999 instead of 3 cut off feasible values.
- A singleton inequality was removed though its bound was not applied
  because of the limit.
- A huge bound overflowed in the conversion to integer.
---
 printemps/preprocess/problem_size_reducer.h | 67 +++++++++++++--------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 8f4e502..0d09985 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -221,6 +221,10 @@ class ProblemSizeReducer {
         model_component::Constraint<T_Variable, T_Expression>
             *      a_constraint_ptr,  //
         const bool a_IS_ENABLED_PRINT) {
+        /**
+         * NOTE: A bound is not tightened if its absolute value is equal to or
+         * greater than this limit.
+         */
         const int BOUND_LIMIT = 100000;
         /**
          * NOTE: This function should be called from
@@ -340,11 +344,16 @@ class ProblemSizeReducer {
                  * ax+b<=0 with a>0 (or ax+b>=0 with a<0), the lower bound of
                  * the variable will be tightened by floor(-b/a).
                  */
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const auto BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON_10);
 
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                if (BOUND_FLOOR < variable_upper_bound) {
+                    if (fabs(BOUND_FLOOR) >= BOUND_LIMIT) {
+                        return std::make_pair(is_constraint_disabled,
+                                              is_variable_bound_updated);
+                    }
+                    const auto bound_floor =
+                        static_cast<T_Variable>(BOUND_FLOOR);
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(
                             "The upper bound of the variable " +
@@ -387,11 +396,15 @@ class ProblemSizeReducer {
                  * ax+b>=0 with a>0 (or ax+b<=0 with a<0), the upper bound of
                  * the variable will be tightened by ceil(-b/a).
                  */
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const auto BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON_10);
 
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                if (BOUND_CEIL > variable_lower_bound) {
+                    if (fabs(BOUND_CEIL) >= BOUND_LIMIT) {
+                        return std::make_pair(is_constraint_disabled,
+                                              is_variable_bound_updated);
+                    }
+                    const auto bound_ceil = static_cast<T_Variable>(BOUND_CEIL);
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(  //
                             "The lower bound of the variable " +
@@ -443,10 +456,11 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                const auto BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON);
+                if (BOUND_CEIL > variable_lower_bound &&
+                    fabs(BOUND_CEIL) < BOUND_LIMIT) {
+                    const auto bound_ceil = static_cast<T_Variable>(BOUND_CEIL);
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -461,10 +475,12 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                const auto BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON);
+                if (BOUND_FLOOR < variable_upper_bound &&
+                    fabs(BOUND_FLOOR) < BOUND_LIMIT) {
+                    const auto bound_floor =
+                        static_cast<T_Variable>(BOUND_FLOOR);
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -489,10 +505,12 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                const auto BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON);
+                if (BOUND_FLOOR < variable_upper_bound &&
+                    fabs(BOUND_FLOOR) < BOUND_LIMIT) {
+                    const auto bound_floor =
+                        static_cast<T_Variable>(BOUND_FLOOR);
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -507,10 +525,11 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                const auto BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON);
+                if (BOUND_CEIL > variable_lower_bound &&
+                    fabs(BOUND_CEIL) < BOUND_LIMIT) {
+                    const auto bound_ceil = static_cast<T_Variable>(BOUND_CEIL);
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-- 
2.43.0


From 9348fdd506afad9b95f46bc41b31f51730ed580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:11 +0000
Subject: [PATCH 15/45] fix: selections follow fixed variables and tightened
 bounds

- A selection with a variable fixed at 1 had no selected variable, by which
  the selection moves crashed.
- Selection moves do not unselect a fixed variable.
- A search loop can start from a solution which is out of the bounds
  tightened by online bounding.
---
 printemps/model/model.h                        | 18 +++++++++++-------
 .../neighborhood/selection_move_generator.h    |  8 ++++++++
 printemps/preprocess/verifier.h                |  3 +++
 .../solver/tabu_search/core/tabu_search_core.h |  6 +++++-
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index b47e184..a5f0516 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3359,24 +3359,28 @@ class Model {
 
     /*************************************************************************/
     inline void import_solution(
-        const solution::SparseSolution<T_Variable, T_Expression> &a_SOLUTION) {
+        const solution::SparseSolution<T_Variable, T_Expression> &a_SOLUTION,
+        const bool a_IS_ENABLED_CORRECTION = false) {
         const auto &VARIABLES = a_SOLUTION.variables;
         for (auto &&proxy : m_variable_proxies) {
             for (auto &&variable : proxy.flat_indexed_variables()) {
-                if (VARIABLES.find(variable.name()) != VARIABLES.end()) {
-                    variable = VARIABLES.at(variable.name());
+                const auto       ITERATOR = VARIABLES.find(variable.name());
+                const T_Variable VALUE =
+                    ITERATOR != VARIABLES.end() ? ITERATOR->second : 0;
+                if (a_IS_ENABLED_CORRECTION) {
+                    variable.set_value_if_mutable(VALUE);
                 } else {
-                    variable = 0;
+                    variable = VALUE;
                 }
             }
         }
         preprocess::Verifier<T_Variable, T_Expression> verifier(this);
         verifier.verify_and_correct_selection_variables_initial_values(  //
-            false, false);
+            a_IS_ENABLED_CORRECTION, false);
         verifier.verify_and_correct_binary_variables_initial_values(  //
-            false, false);
+            a_IS_ENABLED_CORRECTION, false);
         verifier.verify_and_correct_integer_variables_initial_values(  //
-            false, false);
+            a_IS_ENABLED_CORRECTION, false);
     }
 
     /*************************************************************************/
diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..f09dcd9 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -109,6 +109,14 @@ class SelectionMoveGenerator
                         continue;
                     }
 
+                    /**
+                     * NOTE: The selected variable could be fixed.
+                     */
+                    if ((*a_moves_ptr)[i].has_fixed_variable()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
+
                     if (a_ACCEPT_ALL) {
                         /** nothing to do */
                     } else {
diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 3243881..580bf92 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -260,6 +261,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -326,6 +328,7 @@ class Verifier {
                 };
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
                 this->print_correction(selected_variable_ptr->name(), 0, 1,
                                        a_IS_ENABLED_PRINT);
 
diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index f5f5ab5..bb8f4bc 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -814,7 +814,11 @@ class TabuSearchCore {
         const option::Option& a_OPTION) {
         m_model_ptr        = a_model_ptr;
         m_global_state_ptr = a_global_state_ptr;
-        m_model_ptr->import_solution(a_INITIAL_SOLUTION);
+        /**
+         * NOTE: The initial solution could be out of the bounds tightened by
+         * online bounding.
+         */
+        m_model_ptr->import_solution(a_INITIAL_SOLUTION, true);
         m_initial_solution = m_model_ptr->export_dense_solution();
         m_option           = a_OPTION;
 
-- 
2.43.0


From d7d7f5cdcd76b9e8f1b0dc2f64fdaaf0cbf64605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:32 +0000
Subject: [PATCH 16/45] fix: dependent variables are extracted only with
 integral expressions

---
 .../preprocess/dependent_variable_extractor.h | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 5667415..049edbb 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -217,6 +217,25 @@ class DependentVariableExtractor {
             auto key_variable_ptr = constraint_ptr->key_variable_ptr();
 
             if (flags[i] && key_variable_ptr_counts[key_variable_ptr] == 1) {
+                /**
+                 * The key variable can be replaced only by an expression which
+                 * takes an integral value for every assignment of the others.
+                 */
+                auto solved_expression =
+                    constraint_ptr->expression().solve(key_variable_ptr);
+                const auto IS_INTEGER = [](const double a_VALUE) {
+                    return std::fabs(a_VALUE - std::round(a_VALUE)) <
+                           constant::EPSILON_10;
+                };
+                bool is_integral = IS_INTEGER(solved_expression.constant_value());
+                for (const auto &sensitivity : solved_expression.sensitivities()) {
+                    is_integral =
+                        is_integral && IS_INTEGER(sensitivity.second);
+                }
+                if (!is_integral) {
+                    continue;
+                }
+
                 utility::print_message(
                     "The variable " + key_variable_ptr->name() +
                         " in the constraint " + constraint_ptr->name() +
@@ -227,7 +246,7 @@ class DependentVariableExtractor {
 
                 dependent_variable_ptrs.push_back(key_variable_ptr);
                 additional_expressions.emplace_back(
-                    constraint_ptr->expression().solve(key_variable_ptr));
+                    std::move(solved_expression));
 
                 auto &expression = additional_expressions.back();
                 expression.set_name(key_variable_ptr->name() + "_dependent");
-- 
2.43.0


From 6fa8f937d8095c7e844209d4a8ffcbac4b50e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:42 +0000
Subject: [PATCH 17/45] hook: observation points of the tabu search
 (PRINTEMPS_VERIF_TRACE)

---
 .../tabu_search/core/tabu_search_core.h       | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index bb8f4bc..fc0eb3f 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -35,6 +35,45 @@ class TabuSearchCore {
     TabuSearchCoreResult<T_Variable, T_Expression>       m_result;
     std::mt19937                                         m_get_rand_mt;
 
+#ifdef PRINTEMPS_VERIF_TRACE
+   public:
+    /**
+     * Observation point for verification. It is not compiled in ordinary
+     * builds.
+     */
+    struct Observation {
+        const char*                                          event;
+        model::Model<T_Variable, T_Expression>*              model_ptr;
+        GlobalState<T_Variable, T_Expression>*               global_state_ptr;
+        const TabuSearchCoreState<T_Variable, T_Expression>* state_ptr;
+        const option::Option*                                option_ptr;
+        const neighborhood::Move<T_Variable, T_Expression>*  move_ptr;
+        const std::vector<solution::SolutionScore>*          solution_scores_ptr;
+        const std::vector<TabuSearchCoreMoveScore>*          move_scores_ptr;
+        const std::vector<double>*                           total_scores_ptr;
+        int                                                  selected_index;
+        bool                                                 is_aspirated;
+    };
+    inline static std::function<void(const Observation&)> observer;
+
+   private:
+    inline void observe(
+        const char*                                         a_EVENT,
+        const neighborhood::Move<T_Variable, T_Expression>* a_move_ptr = nullptr,
+        const std::vector<solution::SolutionScore>* a_solution_scores_ptr =
+            nullptr,
+        const std::vector<TabuSearchCoreMoveScore>* a_move_scores_ptr = nullptr,
+        const std::vector<double>*                  a_total_scores_ptr = nullptr,
+        const int a_SELECTED_INDEX = -1, const bool a_IS_ASPIRATED = false) {
+        if (observer) {
+            observer({a_EVENT, m_model_ptr, m_global_state_ptr,
+                      &m_state_manager.state(), &m_option, a_move_ptr,
+                      a_solution_scores_ptr, a_move_scores_ptr,
+                      a_total_scores_ptr, a_SELECTED_INDEX, a_IS_ASPIRATED});
+        }
+    }
+#endif
+
     /*************************************************************************/
     inline void preprocess(void) {
         /**
@@ -345,6 +384,9 @@ class TabuSearchCore {
             m_state_manager.update(selected_move_ptr, 0, false,
                                    {selected_move_score},
                                    {selected_solution_score});
+#ifdef PRINTEMPS_VERIF_TRACE
+            this->observe("modified", selected_move_ptr);
+#endif
         }
     }
 
@@ -840,6 +882,9 @@ class TabuSearchCore {
          * Preprocess.
          */
         this->preprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("start");
+#endif
 
         /**
          * Prepare a move evaluator.
@@ -1033,6 +1078,11 @@ class TabuSearchCore {
              * Update the model by the selected move.
              */
             auto move_ptr = TRIAL_MOVE_PTRS[SELECTED_INDEX];
+#ifdef PRINTEMPS_VERIF_TRACE
+            this->observe("select", move_ptr, &trial_solution_scores,
+                          &trial_move_scores, &total_scores, SELECTED_INDEX,
+                          IS_ASPIRATED);
+#endif
 
             /**
              * If the selected move updates the global incumbent solution and
@@ -1068,6 +1118,9 @@ class TabuSearchCore {
                                    IS_ASPIRATED,       //
                                    trial_move_scores,  //
                                    trial_solution_scores);
+#ifdef PRINTEMPS_VERIF_TRACE
+            this->observe("moved", move_ptr);
+#endif
 
             /**
              * To avoid cycling, each special neighborhood can be used only once
@@ -1142,6 +1195,9 @@ class TabuSearchCore {
          */
         m_state_manager.set_elapsed_time(time_keeper.clock());
         this->postprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("end");
+#endif
     }
 
     /*************************************************************************/
-- 
2.43.0


From dca985b16bec1daaff765f993a06192b1324301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:10 +0000
Subject: [PATCH 18/45] fix: constant ratio moves step the variable which they
 alter

---
 .../neighborhood/constant_ratio_integers_move_generator.h     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/neighborhood/constant_ratio_integers_move_generator.h b/printemps/neighborhood/constant_ratio_integers_move_generator.h
index b8fa65c..e97bb77 100644
--- a/printemps/neighborhood/constant_ratio_integers_move_generator.h
+++ b/printemps/neighborhood/constant_ratio_integers_move_generator.h
@@ -131,7 +131,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() + 1;
+                            alterations[0].first->value() + 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
@@ -140,7 +140,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() - 1;
+                            alterations[0].first->value() - 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
-- 
2.43.0


From b907bd439fca10aedecfec7710672b97a45b9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 19/45] fix: constant sum and difference moves respect the
 signs of coefficients

---
 .../neighborhood/constant_difference_integers_move_generator.h | 3 ++-
 printemps/neighborhood/constant_sum_integers_move_generator.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/neighborhood/constant_difference_integers_move_generator.h b/printemps/neighborhood/constant_difference_integers_move_generator.h
index 1e91955..8e0b335 100644
--- a/printemps/neighborhood/constant_difference_integers_move_generator.h
+++ b/printemps/neighborhood/constant_difference_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantDifferenceIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
diff --git a/printemps/neighborhood/constant_sum_integers_move_generator.h b/printemps/neighborhood/constant_sum_integers_move_generator.h
index f783b7c..f1a5cb4 100644
--- a/printemps/neighborhood/constant_sum_integers_move_generator.h
+++ b/printemps/neighborhood/constant_sum_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantSumIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From 1eb680eb58825b99531e5070f955349c295d63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 20/45] fix: trinomial exclusive NOR constraints have no
 constant

---
 printemps/model_component/constraint.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 85bd09f..6600dc1 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -489,6 +489,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
         /// Trinomial XNOR
         if (m_expression.sensitivities().size() == 3 &&
+            m_expression.constant_value() == 0 &&
             m_sense == ConstraintSense::Equal) {
             bool is_valid = true;
             for (const auto &sensitivity : m_expression.sensitivities()) {
-- 
2.43.0


From c03a9c4e123c1a9af5c2e78d5aa36edd5ce2487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:15 +0000
Subject: [PATCH 21/45] fix: moves deduplicate related constraints also when
 names coincide

---
 printemps/neighborhood/move.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/move.h b/printemps/neighborhood/move.h
index 79f6c10..d5592e5 100644
--- a/printemps/neighborhood/move.h
+++ b/printemps/neighborhood/move.h
@@ -247,7 +247,20 @@ struct Move {
         std::stable_sort(this->related_constraint_ptrs.begin(),
                          this->related_constraint_ptrs.end(),
                          [](const auto &a_FIRST, const auto &a_SECOND) {
-                             return a_FIRST->name() < a_SECOND->name();
+                             if (a_FIRST->name() != a_SECOND->name()) {
+                                 return a_FIRST->name() < a_SECOND->name();
+                             }
+                             /**
+                              * NOTE: Names of constraints are not necessarily
+                              * unique.
+                              */
+                             if (a_FIRST->proxy_index() !=
+                                 a_SECOND->proxy_index()) {
+                                 return a_FIRST->proxy_index() <
+                                        a_SECOND->proxy_index();
+                             }
+                             return a_FIRST->flat_index() <
+                                    a_SECOND->flat_index();
                          });
 
         this->related_constraint_ptrs.erase(
-- 
2.43.0


From a9adf0e462f0f8f540eeb4d6b8f5bd39723482a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:00 +0000
Subject: [PATCH 22/45] fix: sign of the multiplier terms in the Lagrangian of
 maximization problems

The Lagrangian of a maximization problem was evaluated as f + u*g while
the primal step maximizes f - u*g, so that the dual bound could cut off
the optimum.
---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a5f0516..b360298 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3040,7 +3040,7 @@ class Model {
             lagrangian +=
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
-                constraint_ptr->constraint_value();
+                constraint_ptr->constraint_value() * this->sign();
         }
         return lagrangian;
     }
-- 
2.43.0


From 28698dc76b8eb537c3edd869889fb342bf859761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 23/45] fix: refresh objective improvabilities before
 concluding optimality

With the improvability screening off the flags stay reset, and a
feasible point without available moves was reported as an optimum.
---
 printemps/solver/local_search/core/local_search_core.h | 5 ++++-
 printemps/solver/tabu_search/core/tabu_search_core.h   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index 16b2903..6137647 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -137,8 +137,11 @@ class LocalSearchCore {
             /**
              * NOTE: If the current solution is feasible and there is no
              * improvable solution, the solution should be an optimum. It can
-             * happen for decomp2 instance in MIPLIB 2017.
+             * happen for decomp2 instance in MIPLIB 2017. The improvabilities
+             * are updated here because they are not maintained if the
+             * improvability screening is off.
              */
+            m_model_ptr->update_variable_objective_improvabilities();
             m_state_manager.set_termination_status(
                 LocalSearchCoreTerminationStatus::OPTIMAL);
             for (const auto& variable_ptr :
diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index fc0eb3f..3097c39 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -210,8 +210,11 @@ class TabuSearchCore {
             /**
              * NOTE: If the current solution is feasible and there is no
              * improvable solution, the solution should be an optimum. It can
-             * happen for decomp2 instance in MIPLIB 2017.
+             * happen for decomp2 instance in MIPLIB 2017. The improvabilities
+             * are updated here because they are not maintained if the
+             * improvability screening is off.
              */
+            m_model_ptr->update_variable_objective_improvabilities();
             m_state_manager.set_termination_status(
                 TabuSearchCoreTerminationStatus::OPTIMAL);
             for (const auto& variable_ptr :
-- 
2.43.0


From 7e529b36753eaf5e170039ccb7d4a52e105e17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 24/45] fix: RANGES section of MPS files is read with the wrong
 bounds

The second bound of a ranged row was placed on the wrong side of the
right hand side, and a ranged equality row was kept as an equality, so
that models with ranges became infeasible.
---
 printemps/mps/mps.h | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..3be63b1 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -256,38 +256,44 @@ struct MPS {
                         double range = atof(items[2 * i + 2].c_str());
                         name_new     = name + "_range";
 
+                        const double RHS = this->constraints[name].rhs;
+
                         this->constraints[name_new].name = name_new;
                         this->constraints[name_new].sensitivities =
                             this->constraints[name].sensitivities;
                         switch (this->constraints[name].sense) {
                             case MPSConstraintSense::Less: {
+                                /// RHS - |range| <= expression <= RHS
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Greater;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs + fabs(range);
+                                    RHS - fabs(range);
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Greater: {
+                                /// RHS <= expression <= RHS + |range|
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Less;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs - fabs(range);
+                                    RHS + fabs(range);
+                                this->number_of_lesser_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Equal: {
-                                if (range > 0) {
-                                    this->constraints[name_new].sense =
-                                        MPSConstraintSense::Greater;
-                                    this->constraints[name_new].rhs =
-                                        this->constraints[name].rhs +
-                                        fabs(range);
-                                } else {
-                                    this->constraints[name_new].sense =
-                                        MPSConstraintSense::Less;
-                                    this->constraints[name_new].rhs =
-                                        this->constraints[name].rhs -
-                                        fabs(range);
-                                }
+                                /// RHS <= expression <= RHS + |range|, or
+                                /// RHS - |range| <= expression <= RHS
+                                this->constraints[name].sense =
+                                    MPSConstraintSense::Greater;
+                                this->constraints[name].rhs =
+                                    range > 0 ? RHS : RHS - fabs(range);
+                                this->constraints[name_new].sense =
+                                    MPSConstraintSense::Less;
+                                this->constraints[name_new].rhs =
+                                    range > 0 ? RHS + fabs(range) : RHS;
+                                this->number_of_equal_constraints--;
+                                this->number_of_greater_constraints++;
+                                this->number_of_lesser_constraints++;
                                 break;
                             }
                             default: {
@@ -300,7 +306,6 @@ struct MPS {
                         }
 
                         this->constraint_names.push_back(name_new);
-                        this->number_of_lesser_constraints++;
                     }
                     break;
                 }
-- 
2.43.0


From 60c3f08b94434576a1867606d492592259727fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 25/45] fix: skip comment lines inside the sections of MPS
 files

---
 printemps/mps/mps.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 3be63b1..752c456 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -106,6 +106,13 @@ struct MPS {
                 continue;
             }
 
+            /**
+             * Skip comment lines.
+             */
+            if (line.front() == '*') {
+                continue;
+            }
+
             if (items.front() == "NAME") {
                 read_mode = MPSReadMode::Name;
             } else if (items.front() == "ROWS" && ITEMS_SIZE == 1) {
-- 
2.43.0


From 2c101d8ca420c05375d383337ceaaafb07eb7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 26/45] fix: the first N row of an MPS file is the objective
 function

Files with further free rows were rejected, or read with the last N row
as the objective function.
---
 printemps/mps/mps.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 752c456..38b3ce2 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -89,6 +89,8 @@ struct MPS {
         std::string              name_new;
         std::string              category;
 
+        std::unordered_set<std::string> free_row_names;
+
         /**
          * Parse the mps file.
          */
@@ -149,8 +151,16 @@ struct MPS {
                 }
                 case MPSReadMode::Rows: {
                     if (items.front() == "N") {
-                        name                 = items[1];
-                        this->objective.name = name;
+                        /**
+                         * NOTE: The first N row is the objective function and
+                         * the others are free rows to be ignored.
+                         */
+                        name = items[1];
+                        if (this->objective.name.empty()) {
+                            this->objective.name = name;
+                        } else {
+                            free_row_names.insert(name);
+                        }
                     } else if (items.front() == "L") {
                         name = items[1];
                         this->constraints[name].sense =
@@ -210,7 +220,8 @@ struct MPS {
                                        this->constraints.end()) {
                                 this->constraints[expression_name]
                                     .sensitivities[name] = sensitivity;
-                            } else {
+                            } else if (free_row_names.find(expression_name) ==
+                                       free_row_names.end()) {
                                 throw std::logic_error(
                                     utility::format_error_location(
                                         __FILE__, __LINE__, __func__,
-- 
2.43.0


From a5e0197e9f8a433ffdf7bc8dc36dfd1939bf5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:21 +0000
Subject: [PATCH 27/45] fix: read the constant term of the objective function
 from MPS files

The right hand side of the objective row was taken for that of an
undefined constraint and dropped.
---
 printemps/model/model.h       |  3 ++-
 printemps/mps/mps.h           | 11 ++++++++++-
 printemps/mps/mps_objective.h |  2 ++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index b360298..0c8c273 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3575,7 +3575,8 @@ class Model {
             objective_sensitivities[variable_ptrs[VARIABLE_NAME]] = COEFFICIENT;
         }
         objective.set_sensitivities(objective_sensitivities);
-        this->minimize(objective);
+        this->minimize(objective +
+                       static_cast<T_Expression>(a_MPS.objective.constant));
     }
 
     /*********************************************************************/
diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 38b3ce2..c8b8f32 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -252,7 +252,16 @@ struct MPS {
                         name       = items[2 * i + 1];
                         double rhs = atof(items[2 * i + 2].c_str());
 
-                        this->constraints[name].rhs = rhs;
+                        if (name == this->objective.name) {
+                            /**
+                             * NOTE: The right hand side of the objective
+                             * function is the negative of its constant term.
+                             */
+                            this->objective.constant = -rhs;
+                        } else if (this->constraints.find(name) !=
+                                   this->constraints.end()) {
+                            this->constraints[name].rhs = rhs;
+                        }
                     }
                     break;
                 }
diff --git a/printemps/mps/mps_objective.h b/printemps/mps/mps_objective.h
index 8e319e3..d85fe9a 100644
--- a/printemps/mps/mps_objective.h
+++ b/printemps/mps/mps_objective.h
@@ -14,6 +14,7 @@ struct MPSObjective {
     MPSObjectiveSense                       sense;
     std::string                             name;
     std::unordered_map<std::string, double> sensitivities;
+    double                                  constant;
 
     /*************************************************************************/
     MPSObjective(void) {
@@ -25,6 +26,7 @@ struct MPSObjective {
         this->sense = MPSObjectiveSense::Minimize;
         this->name  = "";
         this->sensitivities.clear();
+        this->constant = 0.0;
     }
 };
 }  // namespace printemps::mps
-- 
2.43.0


From 79fa8a94089927d652805fc8b69828361591c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 28/45] fix: round fractional and infinite bounds of integer
 variables in MPS files

Bounds were truncated toward zero, which admits points below a
fractional lower bound and above a negative fractional upper bound, and
values such as 1e30 overflowed.
---
 printemps/mps/mps.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index c8b8f32..3dc194a 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -54,6 +54,17 @@ struct MPS {
         this->number_of_greater_constraints = 0;
     }
 
+    /*************************************************************************/
+    inline static int integer_bound(const double a_VALUE) {
+        if (a_VALUE <= constant::INT_HALF_MIN) {
+            return constant::INT_HALF_MIN;
+        }
+        if (a_VALUE >= constant::INT_HALF_MAX) {
+            return constant::INT_HALF_MAX;
+        }
+        return static_cast<int>(a_VALUE);
+    }
+
     /*************************************************************************/
     inline void read_mps(const std::string &a_FILE_NAME) {
         bool is_valid = false;
@@ -390,12 +401,19 @@ struct MPS {
                         }
                     } else if (ITEMS_SIZE == 4) {
                         double continuous_value = atof(items[3].c_str());
-                        int integer_value = static_cast<int>(continuous_value);
+                        const int INTEGER_LOWER_BOUND =
+                            this->integer_bound(std::ceil(
+                                continuous_value - constant::EPSILON_10));
+                        const int INTEGER_UPPER_BOUND =
+                            this->integer_bound(std::floor(
+                                continuous_value + constant::EPSILON_10));
+                        const int INTEGER_FIXED_VALUE =
+                            this->integer_bound(continuous_value);
 
                         if (category == "LO") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_LOWER_BOUND;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "LI") {
@@ -403,13 +421,13 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_LOWER_BOUND;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "UP") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_UPPER_BOUND;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "UI") {
@@ -417,20 +435,20 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_UPPER_BOUND;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "FX") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].is_fixed         = true;
                             this->variables[name].integer_fixed_value =
-                                integer_value;
+                                INTEGER_FIXED_VALUE;
                             this->variables[name].continuous_fixed_value =
                                 continuous_value;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_FIXED_VALUE;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_FIXED_VALUE;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                             this->variables[name].continuous_upper_bound =
-- 
2.43.0


From b3de45bae72f9d3a85577d6c2278898e9964829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 29/45] fix: an infinite upper bound in an MPS file keeps the
 lower bound

A PL record reset a lower bound given before it to zero.
---
 printemps/mps/mps.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 3dc194a..21b4ac5 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -391,11 +391,9 @@ struct MPS {
                                 -HUGE_VAL;
                             this->variables[name].continuous_upper_bound = 0;
                         } else if (category == "PL") {
-                            this->variables[name].is_bound_defined    = true;
-                            this->variables[name].integer_lower_bound = 0;
+                            this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
                                 constant::INT_HALF_MAX;
-                            this->variables[name].continuous_lower_bound = 0;
                             this->variables[name].continuous_upper_bound =
                                 HUGE_VAL;
                         }
-- 
2.43.0


From f2862f83532433af26527e52243adefbd15f67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 30/45] fix: write MPS files with the full precision of the
 coefficients

Coefficients and right hand sides were rounded to six digits.
---
 printemps/model/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 0c8c273..b76c4e8 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3582,6 +3582,7 @@ class Model {
     /*********************************************************************/
     void write_mps(const std::string &a_FILE_NAME) {
         std::ofstream ofs(a_FILE_NAME);
+        ofs << std::setprecision(std::numeric_limits<double>::max_digits10);
         /**
          * Determine unique name of variables and constraints.
          */
-- 
2.43.0


From 4b48e9946c35f01027e7c5391057dbcd387cd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 31/45] fix: declare variables without coefficients in written
 MPS files

They were missing from the COLUMNS section although their bounds were
written, which makes the file invalid.
---
 printemps/model/model.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index b76c4e8..c2c16b9 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3644,6 +3644,13 @@ class Model {
             for (const auto &variable : proxy.flat_indexed_variables()) {
                 const auto VARIABLE_NAME =
                     utility::delete_space(variable.name());
+                /// Declare the variable if it does not appear anywhere.
+                if (fabs(variable.objective_sensitivity()) <=
+                        constant::EPSILON_10 &&
+                    variable.constraint_sensitivities().empty()) {
+                    ofs << "    " << VARIABLE_NAME << "     obj    0"
+                        << std::endl;
+                }
                 /// Objective
                 if (fabs(variable.objective_sensitivity()) >
                     constant::EPSILON_10) {
-- 
2.43.0


From 19bb4025fafa805aa2bbed087e9dfd78562e3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 32/45] fix: write the constant term of the objective function
 to MPS files

---
 printemps/model/model.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index c2c16b9..6f7610b 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3679,6 +3679,18 @@ class Model {
          * Write RHS section.
          */
         ofs << "RHS" << std::endl;
+        const auto OBJECTIVE_CONSTANT =
+            m_objective.expression().constant_value();
+        if (fabs(OBJECTIVE_CONSTANT) > constant::EPSILON_10) {
+            /**
+             * NOTE: The right hand side of the objective function is the
+             * negative of its constant term.
+             */
+            ofs << "    rhs    obj    "
+                << (m_is_minimization ? -OBJECTIVE_CONSTANT
+                                      : OBJECTIVE_CONSTANT)
+                << std::endl;
+        }
         for (const auto &proxy : m_constraint_proxies) {
             for (const auto &constraint : proxy.flat_indexed_constraints()) {
                 const auto CONSTRAINT_NAME =
-- 
2.43.0


From b84092b12901def1b1a5d23375df0c83ea16898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 33/45] fix: write infinite bounds of variables to MPS files

Missing infinite bounds were read back as the defaults 0 and 1.
---
 printemps/model/model.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 6f7610b..83cb000 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3713,14 +3713,31 @@ class Model {
                     ofs << "    FX    bnd    " << VARIABLE_NAME << "     "
                         << variable.value() << std::endl;
                 } else {
-                    if (variable.lower_bound() != constant::INT_HALF_MIN) {
-                        if (variable.lower_bound() != 0) {
-                            ofs << "    LO    bnd    " << VARIABLE_NAME
-                                << "    " << variable.lower_bound()
-                                << std::endl;
-                        }
+                    const bool IS_LOWER_BOUNDED =
+                        variable.lower_bound() != constant::INT_HALF_MIN;
+                    const bool IS_UPPER_BOUNDED =
+                        variable.upper_bound() != constant::INT_HALF_MAX;
+
+                    /**
+                     * NOTE: Infinite bounds are written explicitly because the
+                     * default bounds of integer variables are 0 and 1.
+                     */
+                    if (!IS_LOWER_BOUNDED && !IS_UPPER_BOUNDED) {
+                        ofs << "    FR    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else if (!IS_LOWER_BOUNDED) {
+                        ofs << "    MI    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else if (!IS_UPPER_BOUNDED) {
+                        ofs << "    PL    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    }
+
+                    if (IS_LOWER_BOUNDED && variable.lower_bound() != 0) {
+                        ofs << "    LO    bnd    " << VARIABLE_NAME << "    "
+                            << variable.lower_bound() << std::endl;
                     }
-                    if (variable.upper_bound() != constant::INT_HALF_MAX) {
+                    if (IS_UPPER_BOUNDED) {
                         ofs << "    UP    bnd    " << VARIABLE_NAME << "    "
                             << variable.upper_bound() << std::endl;
                     }
-- 
2.43.0


From a45a2521a29e0079395f6711898ca4aaf3af6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:28 +0000
Subject: [PATCH 34/45] fix: averaged speeds stay finite when no measurable
 time has elapsed

A search that finished within the clock resolution divided by zero, and the
resulting nan or inf made the written status file invalid JSON.
---
 .../tabu_search_controller_state_manager.h     | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 2ac9809..56b49fd 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -437,13 +437,19 @@ class TabuSearchControllerStateManager {
         m_state.total_number_of_evaluated_moves +=
             a_RESULT.number_of_evaluated_moves;
 
-        m_state.averaged_inner_iteration_speed =
-            m_state.total_number_of_inner_iterations /
-            m_state.tabu_search_elapsed_time;
+        /**
+         * The averaged speeds are updated only if the elapsed time is positive
+         * to keep them finite.
+         */
+        if (m_state.tabu_search_elapsed_time > 0) {
+            m_state.averaged_inner_iteration_speed =
+                m_state.total_number_of_inner_iterations /
+                m_state.tabu_search_elapsed_time;
 
-        m_state.averaged_move_evaluation_speed =
-            m_state.total_number_of_evaluated_moves /
-            m_state.tabu_search_elapsed_time;
+            m_state.averaged_move_evaluation_speed =
+                m_state.total_number_of_evaluated_moves /
+                m_state.tabu_search_elapsed_time;
+        }
 
         /**
          * Update the total update status.
-- 
2.43.0


From 778e3d049bdaa203129b18c8e1c2b2dc73265e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:22 +0000
Subject: [PATCH 35/45] fix: assigned expressions keep their own indices and
 names

Copies of an expression shared one record of indices and name. Assigning to an
element of an expression array discarded its indices, so that partial sums and
dot products of the array picked wrong elements or were refused, and elements
assigned from each other ended up with the same name in solution files.
---
 printemps/model_component/expression.h        |  4 +--
 .../abstract_multi_array_element.h            | 31 +++++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index c7316d3..3a38bb8 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -103,9 +103,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     /*************************************************************************/
     /// Copy assignment
     /**
-     * NOTE: The members proxy_index and flat_index will be discarded in the
-     * copy assignment and related methods. It's not a problem because the
-     * program does not use flat_index at the moment.
+     * NOTE: The assigned expression keeps its own indices and name.
      */
     Expression<T_Variable, T_Expression> &operator    =(
         const Expression<T_Variable, T_Expression> &) = default;
diff --git a/printemps/multi_array/abstract_multi_array_element.h b/printemps/multi_array/abstract_multi_array_element.h
index a97e922..c8ade88 100644
--- a/printemps/multi_array/abstract_multi_array_element.h
+++ b/printemps/multi_array/abstract_multi_array_element.h
@@ -34,6 +34,37 @@ class AbstractMultiArrayElement {
         m_extension->name                    = "";
     }
 
+    /*************************************************************************/
+    /// Copy constructor
+    /**
+     * The extension must not be shared by two elements. Otherwise, naming one
+     * of them would rename the other.
+     */
+    AbstractMultiArrayElement(const AbstractMultiArrayElement &a_ELEMENT)
+        : m_extension(std::make_shared<AbstractMultiArrayElementExtension>(
+              *a_ELEMENT.m_extension)) {
+        /// nothing to do
+    }
+
+    /*************************************************************************/
+    /// Move constructor
+    AbstractMultiArrayElement(AbstractMultiArrayElement &&) = default;
+
+    /*************************************************************************/
+    /// Copy and move assignments
+    /**
+     * An element keeps its own indices and name when its content is assigned.
+     */
+    AbstractMultiArrayElement &operator=(
+        const AbstractMultiArrayElement &) noexcept {
+        return *this;
+    }
+
+    AbstractMultiArrayElement &operator=(
+        AbstractMultiArrayElement &&) noexcept {
+        return *this;
+    }
+
    public:
     /*************************************************************************/
     inline void set_proxy_index(const int a_proxy_index) {
-- 
2.43.0


From b785fe4805977f2dfe29be4ab781baf1684f65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:26 +0000
Subject: [PATCH 36/45] fix: assigning an expression array element keeps its
 constant term

Assigning a one-element expression array to an expression dropped the constant
term of the assigned expression.
---
 printemps/model_component/expression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index 3a38bb8..70d68ea 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -498,8 +498,9 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     template <template <class, class> class T_ExpressionLike>
     inline Expression<T_Variable, T_Expression> &operator=(
         const T_ExpressionLike<T_Variable, T_Expression> &a_EXPRESSION_LIKE) {
-        m_sensitivities  = a_EXPRESSION_LIKE.to_expression().sensitivities();
-        m_constant_value = 0;
+        const auto EXPRESSION = a_EXPRESSION_LIKE.to_expression();
+        m_sensitivities       = EXPRESSION.sensitivities();
+        m_constant_value      = EXPRESSION.constant_value();
         return *this;
     }
 
-- 
2.43.0


From 9490bf4353ad3f467ac05ce05ba58622e3e214ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 37/45] fix: booleans in a JSON array are read as booleans, not
 as strings

---
 printemps/utility/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index e7d5d8b..58147a8 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -634,12 +634,12 @@ inline JsonArray parse_json_array(const std::vector<std::string>& a_TOKENS,
             /**
              * Store as true boolean value.
              */
-            array.emplace_back(std::string("true"));
+            array.emplace_back(true);
         } else if (TOKEN == "false") {
             /**
              * Store as false boolean value.
              */
-            array.emplace_back(std::string("false"));
+            array.emplace_back(false);
         } else if (is_integer(TOKEN)) {
             /**
              * Store as integer value.
-- 
2.43.0


From 3dd3586d76972362815dc303e8f93728b5e670bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 38/45] fix: JSON arrays holding long long values, or built
 from a container, can be written

---
 printemps/utility/json/json.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 58147a8..aba9762 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -90,6 +90,7 @@ struct JsonArray {
     /*************************************************************************/
     template <class T_Container>
     JsonArray(const T_Container& a_ARRAY) {
+        this->initialize();
         this->setup(a_ARRAY);
     }
 
@@ -362,12 +363,14 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
             /**
              * Write long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<long long>(element);
         } else if (element.type() == typeid(unsigned long long)) {
             /**
              * Write unsigned long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<unsigned long long>(element);
         } else if (element.type() == typeid(float)) {
             /**
              * Write float type element.
-- 
2.43.0


From 70eced1b141642e5d0bcae9d5a7665afad6c60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 39/45] fix: text in quotations and CRLF line ends are read
 correctly from JSON files

---
 printemps/utility/json/json.h | 56 +++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index aba9762..9a59ca8 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -287,9 +287,12 @@ inline int close_count(const std::string& a_ARG, const char a_LEFT,
                        const char a_RIGHT) {
     int  count           = 0;
     bool is_in_quotation = false;
-    for (const auto& c : a_ARG) {
+    for (std::size_t i = 0; i < a_ARG.size(); i++) {
+        const auto& c = a_ARG[i];
         if (is_in_quotation) {
-            if (c == '\"') {
+            if (c == '\\') {
+                i++;
+            } else if (c == '\"') {
                 is_in_quotation = false;
             }
         } else {
@@ -431,19 +434,34 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
 
 /*****************************************************************************/
 inline std::vector<std::string> tokenize(const std::string& a_ARG) {
-    std::vector<std::pair<std::string, std::string>> rules;
-    rules.emplace_back("\r\n", "");
-    rules.emplace_back(",", " ");
-    rules.emplace_back(":", " ");
-    rules.emplace_back("\\{", "{ ");
-    rules.emplace_back("\\}", " }");
-    rules.emplace_back("\\[", "[ ");
-    rules.emplace_back("\\]", " ]");
-
-    std::string preprocessed = a_ARG;
-    for (const auto& rule : rules) {
-        preprocessed = std::regex_replace(preprocessed, std::regex(rule.first),
-                                          rule.second);
+    /**
+     * Separate the structural characters which are not in quotations.
+     */
+    std::string preprocessed;
+    bool        is_in_quotation = false;
+    for (std::size_t i = 0; i < a_ARG.size(); i++) {
+        const auto& c = a_ARG[i];
+        if (is_in_quotation) {
+            preprocessed += c;
+            if (c == '\\' && i + 1 < a_ARG.size()) {
+                preprocessed += a_ARG[++i];
+            } else if (c == '\"') {
+                is_in_quotation = false;
+            }
+        } else if (c == '\"') {
+            preprocessed += c;
+            is_in_quotation = true;
+        } else if (c == ',' || c == ':' || c == '\r' || c == '\n') {
+            preprocessed += ' ';
+        } else if (c == '{' || c == '[') {
+            preprocessed += c;
+            preprocessed += ' ';
+        } else if (c == '}' || c == ']') {
+            preprocessed += ' ';
+            preprocessed += c;
+        } else {
+            preprocessed += c;
+        }
     }
 
     std::vector<std::string> tokens;
@@ -454,6 +472,14 @@ inline std::vector<std::string> tokenize(const std::string& a_ARG) {
     bool        is_quotation_open    = false;
 
     while (position < preprocessed.size()) {
+        if (is_quotation_open && preprocessed[position] == '\\') {
+            /**
+             * Skip the escaped character.
+             */
+            position += 2;
+            continue;
+        }
+
         if (preprocessed[position] == '\"') {
             is_quotation_open = !is_quotation_open;
         }
-- 
2.43.0


From ccf93eef2b333e1adeaf90e035bc005882b5288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:11 +0000
Subject: [PATCH 40/45] fix: quotation marks and backslashes in JSON strings
 are escaped

---
 printemps/utility/json/json.h | 63 +++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 9a59ca8..e8f5de1 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -156,6 +156,54 @@ inline bool is_integer(const std::string& a_ARG) {
     return true;
 }
 
+/*****************************************************************************/
+inline std::string escape(const std::string& a_ARG) {
+    std::string result = "";
+    for (const auto& c : a_ARG) {
+        if (c == '\"' || c == '\\') {
+            result += '\\';
+            result += c;
+        } else if (c == '\n') {
+            result += "\\n";
+        } else if (c == '\r') {
+            result += "\\r";
+        } else if (c == '\t') {
+            result += "\\t";
+        } else {
+            result += c;
+        }
+    }
+
+    return result;
+}
+
+/*****************************************************************************/
+inline std::string unescape(const std::string& a_ARG) {
+    std::string result = "";
+    for (std::size_t i = 0; i < a_ARG.size(); i++) {
+        if (a_ARG[i] != '\\' || i + 1 == a_ARG.size()) {
+            result += a_ARG[i];
+            continue;
+        }
+
+        const auto& c = a_ARG[++i];
+        if (c == '\"' || c == '\\' || c == '/') {
+            result += c;
+        } else if (c == 'n') {
+            result += '\n';
+        } else if (c == 'r') {
+            result += '\r';
+        } else if (c == 't') {
+            result += '\t';
+        } else {
+            result += '\\';
+            result += c;
+        }
+    }
+
+    return result;
+}
+
 /*****************************************************************************/
 inline std::string indent_space(const int a_INDENT_LEVEL) {
     std::string result = "";
@@ -182,7 +230,8 @@ inline std::ostream& operator<<(std::ostream& os, const JsonObject& a_JSON) {
     indent_level++;
     for (const auto& element : a_JSON.body) {
         os << separator << std::endl;
-        os << indent_space(indent_level) << '\"' << element.first << "\": ";
+        os << indent_space(indent_level) << '\"' << escape(element.first)
+           << "\": ";
 
         if (element.second.type() == typeid(void)) {
             /**
@@ -253,7 +302,8 @@ inline std::ostream& operator<<(std::ostream& os, const JsonObject& a_JSON) {
             /**
              * Write std::string type element with quotation.
              */
-            os << "\"" << std::any_cast<std::string>(element.second) << '\"';
+            os << "\"" << escape(std::any_cast<std::string>(element.second))
+               << '\"';
         } else if (element.second.type() == typeid(JsonObject)) {
             /**
              * Write Json type element in deeper indent level.
@@ -403,7 +453,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
              * Write std::string type element with quotation.
              */
             os << indent_space(indent_level) << '\"'
-               << std::any_cast<std::string>(element) << '\"';
+               << escape(std::any_cast<std::string>(element)) << '\"';
         } else if (element.type() == typeid(JsonObject)) {
             /**
              * Write Json type element in deeper indent level.
@@ -550,7 +600,7 @@ inline JsonObject parse_json_object(const std::vector<std::string>& a_TOKENS,
         const auto& TOKEN = a_TOKENS[position];
 
         if (read_mode == ReadMode::Key) {
-            key = TOKEN.substr(1, TOKEN.size() - 2);
+            key = unescape(TOKEN.substr(1, TOKEN.size() - 2));
             position++;
             read_mode = ReadMode::Value;
             continue;
@@ -583,7 +633,8 @@ inline JsonObject parse_json_object(const std::vector<std::string>& a_TOKENS,
                 /**
                  * Store as std::string value.
                  */
-                object.emplace_back(key, TOKEN.substr(1, TOKEN.size() - 2));
+                object.emplace_back(
+                    key, unescape(TOKEN.substr(1, TOKEN.size() - 2)));
             } else if (TOKEN == "null") {
                 /**
                  * Store nullptr for null.
@@ -653,7 +704,7 @@ inline JsonArray parse_json_array(const std::vector<std::string>& a_TOKENS,
             /**
              * Store as std::string value.
              */
-            array.emplace_back(TOKEN.substr(1, TOKEN.size() - 2));
+            array.emplace_back(unescape(TOKEN.substr(1, TOKEN.size() - 2)));
         } else if (TOKEN == "null") {
             /**
              * Store nullptr for null.
-- 
2.43.0


From 17f903aed57cd91ad876658c0fcdfd7530f0b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:00 +0000
Subject: [PATCH 41/45] hook: observation points of local search and Lagrange
 dual (PRINTEMPS_VERIF_TRACE)

---
 .../lagrange_dual/core/lagrange_dual_core.h   | 36 +++++++++++++++++++
 .../local_search/core/local_search_core.h     | 36 +++++++++++++++++++
 2 files changed, 72 insertions(+)

diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
index 251bed1..169df84 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core.h
@@ -30,6 +30,33 @@ class LagrangeDualCore {
     LagrangeDualCoreResult<T_Variable, T_Expression>       m_result;
     std::mt19937                                           m_get_rand_mt;
 
+#ifdef PRINTEMPS_VERIF_TRACE
+   public:
+    /**
+     * Observation point for verification. It is not compiled in ordinary
+     * builds.
+     */
+    struct Observation {
+        const char*                                         event;
+        model::Model<T_Variable, T_Expression>*             model_ptr;
+        GlobalState<T_Variable, T_Expression>*              global_state_ptr;
+        const LagrangeDualCoreState<T_Variable, T_Expression>* state_ptr;
+        const option::Option*                               option_ptr;
+        const neighborhood::Move<T_Variable, T_Expression>* move_ptr;
+    };
+    inline static std::function<void(const Observation&)> observer;
+
+   private:
+    inline void observe(const char* a_EVENT,
+                        const neighborhood::Move<T_Variable, T_Expression>*
+                            a_move_ptr = nullptr) {
+        if (observer) {
+            observer({a_EVENT, m_model_ptr, m_global_state_ptr,
+                      &m_state_manager.state(), &m_option, a_move_ptr});
+        }
+    }
+#endif
+
     /*************************************************************************/
     inline void preprocess(void) {
         /**
@@ -371,6 +398,9 @@ class LagrangeDualCore {
          * Preprocess.
          */
         this->preprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("start");
+#endif
 
         /**
          * Print the header of optimization progress table and print the initial
@@ -466,6 +496,9 @@ class LagrangeDualCore {
              */
             const auto SOLUTION_SCORE = m_model_ptr->evaluate({});
             m_state_manager.update(SOLUTION_SCORE);
+#ifdef PRINTEMPS_VERIF_TRACE
+            this->observe("visited");
+#endif
 
             /**
              * Store the current feasible solution.
@@ -521,6 +554,9 @@ class LagrangeDualCore {
          */
         m_state_manager.set_elapsed_time(time_keeper.clock());
         this->postprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("end");
+#endif
     }
 
     /*************************************************************************/
diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index 6137647..327e19e 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -31,6 +31,33 @@ class LocalSearchCore {
     LocalSearchCoreResult<T_Variable, T_Expression>       m_result;
     std::mt19937                                          m_get_rand_mt;
 
+#ifdef PRINTEMPS_VERIF_TRACE
+   public:
+    /**
+     * Observation point for verification. It is not compiled in ordinary
+     * builds.
+     */
+    struct Observation {
+        const char*                                         event;
+        model::Model<T_Variable, T_Expression>*             model_ptr;
+        GlobalState<T_Variable, T_Expression>*              global_state_ptr;
+        const LocalSearchCoreState<T_Variable, T_Expression>* state_ptr;
+        const option::Option*                               option_ptr;
+        const neighborhood::Move<T_Variable, T_Expression>* move_ptr;
+    };
+    inline static std::function<void(const Observation&)> observer;
+
+   private:
+    inline void observe(const char* a_EVENT,
+                        const neighborhood::Move<T_Variable, T_Expression>*
+                            a_move_ptr = nullptr) {
+        if (observer) {
+            observer({a_EVENT, m_model_ptr, m_global_state_ptr,
+                      &m_state_manager.state(), &m_option, a_move_ptr});
+        }
+    }
+#endif
+
     /*************************************************************************/
     inline void preprocess(void) {
         /**
@@ -462,6 +489,9 @@ class LocalSearchCore {
          * Preprocess.
          */
         this->preprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("start");
+#endif
 
         /**
          * Prepare an step size adjuster for integer moves.
@@ -711,6 +741,9 @@ class LocalSearchCore {
                                    number_of_performed_moves,    //
                                    is_found_improving_solution,  //
                                    solution_score);
+#ifdef PRINTEMPS_VERIF_TRACE
+            this->observe("moved", &move);
+#endif
 
             /**
              * Store the current feasible solution.
@@ -759,6 +792,9 @@ class LocalSearchCore {
          */
         m_state_manager.set_elapsed_time(time_keeper.clock());
         this->postprocess();
+#ifdef PRINTEMPS_VERIF_TRACE
+        this->observe("end");
+#endif
     }
 
     /*************************************************************************/
-- 
2.43.0


From 437cfbe478d26c68746ddf9a2ff1a9618a8e503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:44 +0000
Subject: [PATCH 42/45] fix: compare fractional coefficients exactly when
 classifying flow and GF(2) constraints

---
 printemps/model_component/constraint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 6600dc1..be864cc 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -605,7 +605,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                 bool is_plus_or_minus_one_coefficient = true;
                 for (const auto &sensitivity : m_expression.sensitivities()) {
-                    if (abs(sensitivity.second) != 1) {
+                    if (std::fabs(sensitivity.second) != 1) {
                         is_plus_or_minus_one_coefficient = false;
                         break;
                     }
@@ -827,7 +827,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             T_Expression                        key_variable_coefficient = 0;
 
             auto constant_value = m_expression.constant_value();
-            if (constant_value != 0 && abs(constant_value) != 1) {
+            if (constant_value != 0 && std::fabs(constant_value) != 1) {
                 is_valid = false;
             }
 
@@ -847,12 +847,12 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                     if ((variable_ptr->sense() == VariableSense::Integer ||
                          variable_ptr->sense() == VariableSense::Binary) &&
-                        abs(coefficient) == 2) {
+                        std::fabs(coefficient) == 2) {
                         key_variable_ptr         = variable_ptr;
                         key_variable_coefficient = coefficient;
                         number_of_integer_variables_coefficient_two++;
                     } else if (variable_ptr->sense() != VariableSense::Binary ||
-                               abs(coefficient) != 1) {
+                               std::fabs(coefficient) != 1) {
                         is_valid = false;
                         break;
                     }
-- 
2.43.0


From 462aad5dcffdd55d80a9534dea5cbf27ddf5310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:35 +0000
Subject: [PATCH 43/45] fix: GF(2) solver takes the signs of the binary
 variables into account

---
 printemps/preprocess/gf2_solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index a5ecc52..f705355 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -152,7 +152,7 @@ class GF2Solver {
             double value            = expression.constant_value();
             for (const auto &sensitivity : expression.sensitivities()) {
                 if (sensitivity.first != key_variable_ptr) {
-                    value += sensitivity.first->value();
+                    value += sensitivity.second * sensitivity.first->value();
                 }
             }
             double key_coefficient =
-- 
2.43.0


From 9af93136f459ba96cd0c23025efc63278a45bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 44/45] fix: tightening penalty coefficients does not yield NaN
 before a violation was counted

---
 .../controller/tabu_search_controller_state_manager.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 56b49fd..daf2957 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -881,9 +881,16 @@ class TabuSearchControllerStateManager {
 
                 const double DELTA_PENALTY_COEFFICIENT_CONSTANT =
                     std::max(0.0, GAP) / total_violation;
+                /**
+                 * NOTE: The total squared violation is zero if no violation of
+                 * the violated constraints has been counted yet.
+                 */
                 const double DELTA_PENALTY_COEFFICIENT_PROPORTIONAL =
-                    std::max(0.0, GAP) / total_squared_violation *
-                    std::log((VIOLATION_COUNT + 1.0)) * VIOLATION_VALUE;
+                    total_squared_violation > 0.0
+                        ? std::max(0.0, GAP) / total_squared_violation *
+                              std::log((VIOLATION_COUNT + 1.0)) *
+                              VIOLATION_VALUE
+                        : 0.0;
 
                 const double POSITIVE_PART = std::max(CONSTRAINT_VALUE, 0.0);
                 const double NEGATIVE_PART = std::max(-CONSTRAINT_VALUE, 0.0);
-- 
2.43.0


From 47f331eb1829f5d63b7f04e5f497467fd571d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:13 +0000
Subject: [PATCH 45/45] fix: set up the neighborhood after the GF(2) solver
 fixes variables

The move generators were set up before the GF(2) solver fixed variables, so
that binary and integer moves altering the fixed variables remained.
---
 printemps/model/model.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 83cb000..61a14ed 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -777,11 +777,6 @@ class Model {
          */
         this->setup_structure();
 
-        /**
-         * Setup the neighborhood generators.
-         */
-        this->setup_neighborhood(a_OPTION, a_IS_ENABLED_PRINT);
-
         /**
          * Verify and correct the initial values.
          */
@@ -813,6 +808,12 @@ class Model {
             }
         }
 
+        /**
+         * Setup the neighborhood generators. This must follow all processes
+         * which fix variables so that no move alters a fixed variable.
+         */
+        this->setup_neighborhood(a_OPTION, a_IS_ENABLED_PRINT);
+
         /**
          * Set up the fixed sensitivities.
          */
-- 
2.43.0

