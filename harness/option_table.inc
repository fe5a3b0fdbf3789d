// section, option (kind): every option a user can set
INT(general, iteration_max)
DBL(general, time_offset)
DBL(general, time_max)
DBL(general, target_objective_value)
INT(general, seed)
BOOL(general, is_enabled_fast_evaluation)
DBL(penalty, penalty_coefficient_relaxing_rate)
DBL(penalty, penalty_coefficient_tightening_rate)
DBL(penalty, penalty_coefficient_updating_balance)
DBL(penalty, initial_penalty_coefficient)
DBL(penalty, penalty_coefficient_relaxing_rate_min)
DBL(penalty, penalty_coefficient_relaxing_rate_max)
DBL(penalty, penalty_coefficient_relaxing_rate_increase_rate)
DBL(penalty, penalty_coefficient_relaxing_rate_decrease_rate)
INT(penalty, inner_stagnation_threshold)
INT(penalty, outer_stagnation_threshold)
BOOL(penalty, is_enabled_inner_stagnation_breaker)
BOOL(penalty, is_enabled_outer_stagnation_breaker)
BOOL(penalty, is_enabled_group_penalty_coefficient)
BOOL(penalty, is_enabled_shrink_penalty_coefficient)
BOOL(parallel, is_enabled_move_update_parallelization)
BOOL(parallel, is_enabled_move_evaluation_parallelization)
BOOL(parallel, is_enabled_automatic_move_update_parallelization)
BOOL(parallel, is_enabled_automatic_move_evaluation_parallelization)
DBL(parallel, decay_factor_move_update)
DBL(parallel, decay_factor_move_evaluation)
INT(parallel, number_of_threads_move_update)
INT(parallel, number_of_threads_move_evaluation)
BOOL(preprocess, is_enabled_presolve)
BOOL(preprocess, is_enabled_remove_duplicated_constraints)
BOOL(preprocess, is_enabled_remove_redundant_set_variables)
BOOL(preprocess, is_enabled_remove_redundant_set_constraints)
BOOL(preprocess, is_enabled_extract_implicit_equality_constraints)
BOOL(preprocess, is_enabled_online_bounding)
BOOL(preprocess, is_enabled_initial_value_correction)
BOOL(preprocess, is_enabled_extract_dependent_exclusive_or)
BOOL(preprocess, is_enabled_extract_dependent_exclusive_nor)
BOOL(preprocess, is_enabled_extract_dependent_inverted_integers)
BOOL(preprocess, is_enabled_extract_dependent_balanced_integers)
BOOL(preprocess, is_enabled_extract_dependent_constant_sum_integers)
BOOL(preprocess, is_enabled_extract_dependent_constant_difference_integers)
BOOL(preprocess, is_enabled_extract_dependent_constant_ratio_integers)
BOOL(preprocess, is_enabled_extract_dependent_intermediate)
ENUM(restart, restart_mode, restart_mode::RestartMode, "Simple", "Smart")
BOOL(neighborhood, is_enabled_binary_move)
BOOL(neighborhood, is_enabled_integer_move)
BOOL(neighborhood, is_enabled_exclusive_or_move)
BOOL(neighborhood, is_enabled_exclusive_nor_move)
BOOL(neighborhood, is_enabled_inverted_integers_move)
BOOL(neighborhood, is_enabled_balanced_integers_move)
BOOL(neighborhood, is_enabled_constant_sum_integers_move)
BOOL(neighborhood, is_enabled_constant_difference_integers_move)
BOOL(neighborhood, is_enabled_constant_ratio_integers_move)
BOOL(neighborhood, is_enabled_aggregation_move)
BOOL(neighborhood, is_enabled_precedence_move)
BOOL(neighborhood, is_enabled_variable_bound_move)
BOOL(neighborhood, is_enabled_trinomial_exclusive_nor_move)
BOOL(neighborhood, is_enabled_soft_selection_move)
BOOL(neighborhood, is_enabled_chain_move)
BOOL(neighborhood, is_enabled_two_flip_move)
BOOL(neighborhood, is_enabled_user_defined_move)
INT(neighborhood, chain_move_capacity)
ENUM(neighborhood, chain_move_reduce_mode, chain_move_reduce_mode::ChainMoveReduceMode, "OverlapRate", "Shuffle")
DBL(neighborhood, chain_move_overlap_rate_threshold)
ENUM(neighborhood, selection_mode, selection_mode::SelectionMode, "Off", "Defined", "Smaller", "Larger", "Independent", "UserDefined")
ENUM(neighborhood, improvability_screening_mode, improvability_screening_mode::ImprovabilityScreeningMode, "Off", "Soft", "Aggressive", "Intensive", "Automatic")
BOOL(neighborhood, is_enabled_integer_step_size_adjuster)
ENUM(output, verbose, verbose::Verbose, "Off", "Warning", "Outer", "Inner", "Full", "Debug")
BOOL(output, is_enabled_write_trend)
BOOL(output, is_enabled_store_feasible_solutions)
INT(output, feasible_solutions_capacity)
BOOL(output, is_enabled_print_search_behavior_summary)
BOOL(output, is_enabled_print_tree_summary)
BOOL(output, is_enabled_print_parallelization_controller_summary)
BOOL(output, is_enabled_print_variable_update_summary)
BOOL(output, is_enabled_print_constraint_violation_summary)
BOOL(output, is_enabled_print_violation_and_penalty_summary)
BOOL(output, is_enabled_print_tabu_search_parameter)
BOOL(pdlp, is_enabled)
INT(pdlp, iteration_max)
DBL(pdlp, time_max)
DBL(pdlp, time_offset)
DBL(pdlp, tolerance)
DBL(pdlp, step_size_extend_exponent)
DBL(pdlp, step_size_reduce_exponent)
DBL(pdlp, restart_threshold_sufficient)
DBL(pdlp, restart_threshold_necessary)
DBL(pdlp, restart_threshold_artificial)
INT(pdlp, restart_check_interval)
INT(pdlp, convergence_check_interval)
INT(pdlp, counts_of_ruiz_scaling)
BOOL(pdlp, is_enabled_pock_chambolle_scaling)
INT(pdlp, log_interval)
BOOL(lagrange_dual, is_enabled)
INT(lagrange_dual, iteration_max)
DBL(lagrange_dual, time_max)
DBL(lagrange_dual, time_offset)
DBL(lagrange_dual, step_size_extend_rate)
DBL(lagrange_dual, step_size_reduce_rate)
DBL(lagrange_dual, tolerance)
INT(lagrange_dual, queue_size)
INT(lagrange_dual, log_interval)
BOOL(local_search, is_enabled)
INT(local_search, iteration_max)
DBL(local_search, time_max)
DBL(local_search, time_offset)
INT(local_search, log_interval)
INT(local_search, seed)
INT(tabu_search, iteration_max)
DBL(tabu_search, time_max)
DBL(tabu_search, time_offset)
INT(tabu_search, log_interval)
INT(tabu_search, initial_tabu_tenure)
DBL(tabu_search, tabu_tenure_randomize_rate)
DBL(tabu_search, initial_modification_fixed_rate)
DBL(tabu_search, initial_modification_randomize_rate)
ENUM(tabu_search, tabu_mode, tabu_mode::TabuMode, "All", "Any")
DBL(tabu_search, move_preserve_rate)
DBL(tabu_search, frequency_penalty_coefficient)
DBL(tabu_search, lagrangian_penalty_coefficient)
DBL(tabu_search, pruning_rate_threshold)
BOOL(tabu_search, is_enabled_shuffle)
BOOL(tabu_search, is_enabled_move_curtail)
BOOL(tabu_search, is_enabled_automatic_break)
BOOL(tabu_search, is_enabled_automatic_tabu_tenure_adjustment)
BOOL(tabu_search, is_enabled_automatic_iteration_adjustment)
BOOL(tabu_search, is_enabled_initial_modification)
INT(tabu_search, intensity_increase_count_threshold)
INT(tabu_search, intensity_decrease_count_threshold)
DBL(tabu_search, iteration_increase_rate)
DBL(tabu_search, iteration_decrease_rate)
BOOL(tabu_search, ignore_tabu_if_global_incumbent)
INT(tabu_search, number_of_initial_modification)
INT(tabu_search, seed)
