"""Callees that are treated as uninterpreted functions of their inputs at their call sites.

Each has obligations of its own (units.py); a boundary that disappears or changes its signature in the analysed
tree is dropped in both trees and inlined instead."""
B = {
    "cft::CoverCounters::cover": {}, "cft::CoverCounters::uncover": {},
    "cft::CoverCounters::is_redundant_cover": {}, "cft::CoverCounters::is_redundant_uncover": {},
    "cft::complete_init_redund_set": {}, "cft::heuristic_removal": {}, "cft::enumeration_removal": {},
    "cft::local::Enumerator::invoke": {"targs": True, "recursive": True},
    "cft::complete_scores_init": {}, "cft::update_covered": {},
    "cft::local::compute_score": {},
    "cft::Greedy::operator()": {"nothis": True, "timed": True},
    "cft::Pricer::operator()": {"nothis": True},
    "cft::Subgradient::operator()": {"nothis": True, "timed": True, "cache": ["Pricer"]},
    "cft::Subgradient::heuristic": {"nothis": True, "timed": True, "cache": ["Greedy"]},
    "cft::ColFixing::operator()": {"nothis": True, "timed": True, "cache": ["Greedy"]},
    "cft::ThreePhase::operator()": {"nothis": True, "timed": True, "rnd": True},
    "cft::local::RefinementFixManager::operator()": {"rnd": True},
    "cft::fill_rows_from_cols": {"out": [2]},
    "cft::fix_columns_and_compute_maps": {},
    "cft::remove_fixed_cols_from_inst": {},
    "cft::make_identity_fixing_data": {"out": [2]},
    "cft::push_back_col_from": {},
    "cft::Chrono::elapsed": {"clock": True, "targs": True, "recursive": True},
    "cft::rnd_real": {}, "cft::roll_dice": {}, "cft::coin_flip": {}, "cft::canonical_gen": {"targs": True},
    "cft::split": {"throws": True}, "cft::trim": {}, "cft::ltrim": {}, "cft::rtrim": {},
    "cft::string_to::parse": {"targs": True, "throws": True},
    "cft::string_to::consume": {"targs": True, "throws": True},
    "cft::FileLineIterator::next": {}, "cft::FileLineIterator::ended": {},
    "cft::StringView::compare": {},
    "cft::local::read_nrows_and_ncols": {"throws": True},
    "cft::parse_scp_instance": {"throws": True}, "cft::parse_rail_instance": {"throws": True},
    "cft::parse_cvrp_instance": {"throws": True}, "cft::parse_mps_instance": {"throws": True},
    "cft::parse_solution": {"throws": True}, "cft::local::check_and_price_init_sol": {"throws": True},
    "cft::parse_inst_and_initsol": {"throws": True}, "cft::parse_cli_args": {"throws": True},
    "cft::write_solution": {"throws": True}, "cft::run": {"rnd": True, "timed": True},
    "cft::StringView::operator==": {"model": "eq"}, "cft::StringView::operator!=": {"model": "ne"},
}
# helpers without a documented contract: boundaries only while they agree, otherwise they are inlined
HELPERS = {
    "cft::Pricer::_compute_col_reduced_costs": {}, "cft::Pricer::_select_c1_col_idxs": {}, "cft::Pricer::_select_c2_col_idxs": {},
    "cft::Pricer::_init_partial_instance": {},
    "cft::Subgradient::_reset_lower_bounds": {}, "cft::Subgradient::_update_lagr_mult": {},
    "cft::Subgradient::_update_lbsol_and_reduced_costs": {}, "cft::Subgradient::_compute_reduced_row_coverage": {},
    "cft::Subgradient::_compute_subgrad_sqr_norm": {},
    "cft::ThreePhase::_three_phase_setup": {"rnd": True}, "cft::ThreePhase::_from_core_to_unfixed_sol": {},
    "cft::ThreePhase::_compute_greedy_multipliers": {}, "cft::ThreePhase::_perturb_lagr_multipliers": {"rnd": True},
    "cft::ThreePhase::_build_tentative_core_instance": {},
    "cft::Greedy::_remove_redundant_cols": {}, "cft::Greedy::_try_early_exit": {},
    "cft::ColFixing::_select_non_overlapping_cols": {"cache": ["Greedy"]}, "cft::ColFixing::_apply_maps_to_lagr_mult": {},
    "cft::local::StepSizeManager::operator()": {}, "cft::local::ExitConditionManager::operator()": {},
    "cft::local::PricingManager::operator()": {}, "cft::local::PricingManager::update": {},
    "cft::local::compute_maps_from_cols_to_fix": {}, "cft::local::inplace_apply_col_map": {}, "cft::local::inplace_apply_row_map": {},
    "cft::local::add_cols_to_fixing_data": {}, "cft::local::apply_maps_to_fixing_data": {},
    "cft::local::from_fixed_to_unfixed_sol": {}, "cft::local::make_sol_name": {},
    "cft::local::check_and_price_init_sol": {"throws": True},
    "cft::local::read_nrows_and_ncols": {"throws": True},
    "cft::local::compute_score": {},
}
for k in HELPERS: B.pop(k, None)
