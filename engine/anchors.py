"""Which properties the functions of the library are anchors of: a difference in behaviour that stems from a change of such a function concerns these properties."""
import re
A = [(re.compile(r"(?:^|::)(?:%s)$" % p), set(ps.split())) for p, ps in [
    (r"cft::run", "P01 P02 P03 P04 P05 P07 P10"),
    (r"from_fixed_to_unfixed_sol", "P01 P02 P03"),
    (r"RefinementFixManager::.*", "P08 P10"),
    (r"ThreePhase::operator\(\)", "P01 P02 P03 P04 P05 P07 P10"),
    (r"_three_phase_setup", "P05 P06 P10 P12"),
    (r"_from_core_to_unfixed_sol", "P01 P02 P03"),
    (r"_compute_greedy_multipliers", "P06"), (r"_perturb_lagr_multipliers", "P06 P08"),
    (r"_build_tentative_core_instance", "P12"),
    (r"Subgradient::operator\(\)", "P05 P06 P07 P10 P31"), (r"Subgradient::heuristic", "P01 P02 P04 P06 P07 P10 P31"),
    (r"_update_lagr_mult", "P06 P31"), (r"_reset_lower_bounds", "P05 P10 P31"), (r"_update_lbsol_and_reduced_costs", "P05 P10 P31"),
    (r"_compute_reduced_row_coverage|_compute_subgrad_sqr_norm", "P31"),
    (r"(StepSizeManager|ExitConditionManager|PricingManager)::.*", "P31"),
    (r"Greedy::operator\(\)", "P01 P02 P10 P14 P15"), (r"_remove_redundant_cols|_try_early_exit", "P02 P14 P15"),
    (r"complete_init_redund_set|heuristic_removal|enumeration_removal|Enumerator::.*|RedundancyData::.*", "P02 P10 P14"),
    (r"complete_scores_init|update_covered|update_changed_scores|select_good_scores|compute_score|update_row_scores|score_update|Scores::.*", "P10 P15"),
    (r"CoverCounters::.*", "P13"),
    (r"Pricer::operator\(\)", "P03 P05 P10 P12"), (r"_compute_col_reduced_costs|compute_reduced_costs", "P05 P12"),
    (r"_select_c[12]_col_idxs|_init_partial_instance|push_back_col_from", "P03 P12"),
    (r"ColFixing::operator\(\)", "P03 P06 P10 P11"), (r"_select_non_overlapping_cols", "P11"), (r"_apply_maps_to_lagr_mult", "P06"),
    (r"fix_columns_and_compute_maps|add_cols_to_fixing_data|apply_maps_to_fixing_data|make_identity_fixing_data|FixingData::.*", "P02 P03 P11"),
    (r"remove_fixed_cols_from_inst|inplace_apply_(col|row)_map|compute_maps_from_cols_to_fix", "P03 P11"),
    (r"fill_rows_from_cols", "P11 P12 P18"), (r"Instance::.*|clear_inst|SparseBinMat::.*", "P11 P12 P18"),
    (r"read_nrows_and_ncols", "P16 P17 P18"), (r"parse_(scp|rail|cvrp|mps)_instance", "P16 P17 P18"), (r"parse_solution", "P16 P17 P22"),
    (r"check_and_price_init_sol|parse_inst_and_initsol", "P16 P17 P22"), (r"write_solution", "P21 P22"),
    (r"FileLineIterator::.*", "P17"), (r"string_to::.*", "P19"), (r"parse_cli_args|make_sol_name", "P20"), (r"main", "P21"),
    (r"Chrono::.*", "P07 P32"), (r"rnd_real|roll_dice|coin_flip|canonical_gen|XoshiroMixIn::.*|Xoshiro\w+::.*|next_state|rot_l", "P08 P25"),
    (r"StringView::.*|Span::.*|[lr]?trim|split", "P27"),
    (r"SortedArray::.*|CustomKeySortedArray::.*|nth_element|sort|range_min|min|max|clamp|abs|any|all|remove_if|key_\w+", "P26"),
    (r"checked_cast|as_cidx|as_ridx|as_real|native_cast", "P28"), (r"print", "P09"),
]]

def props(q):
    q = re.sub(r"\(anonymous namespace\)::|local::|random::", "", q)
    out = set()
    for rx, ps in A:
        if rx.search(q): out |= ps
    return out
