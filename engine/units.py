"""The obligations: public functions and client programs, and the properties each of their outputs carries.

Every entry is (unit, [(output pattern, properties)]). Outputs of a unit that no pattern matches carry the properties of
the pattern "*". Patterns are matched against the output with its field path, for example return.sol.cost.
"""
import fnmatch

ALG = "P01 P02 P03 P04"
UNITS = [
    # the search
    ("cft::run", [("return.sol*", "P01 P02 P03 P04"), ("return.dual*", "P05"), ("return*", "P01 P02 P03 P04 P05"), ("p0.rnd", "P08"), ("*", "P10")]),
    ("cft::ThreePhase::operator()", [("return.sol*", "P01 P02 P03 P04"), ("return.dual*", "P05"), ("return*", "P01 P02 P03 P04 P05"),
                                     ("p0.rnd", "P08"), ("p1*", "P03 P11"), ("*", "P10")]),
    ("cft::Subgradient::operator()", [("return", "P05"), ("p5*", "P05 P06 P31"), ("p4*", "P31"), ("p6*", "P12"), ("p0.rnd", "P08"), ("*", "P31")]),
    ("cft::Subgradient::heuristic", [("p5*", "P01 P02 P03 P04"), ("p4*", "P06 P31"), ("p0.rnd", "P08"), ("*", "P31")]),
    ("cft::local::StepSizeManager::operator()", [("*", "P31")]),
    ("cft::local::ExitConditionManager::operator()", [("*", "P31")]),
    ("cft::local::PricingManager::operator()", [("*", "P31")]),
    ("cft::local::PricingManager::update", [("*", "P31")]),
    ("cft::Greedy::operator()", [("*", "P01 P02 P14 P15")]),
    ("cft::complete_init_redund_set", [("*", "P14 P02")]),
    ("cft::heuristic_removal", [("*", "P14 P02")]),
    ("cft::enumeration_removal", [("*", "P14 P02")]),
    ("cft::local::Enumerator::invoke", [("*", "P14 P02")]),
    ("cft::complete_scores_init", [("*", "P15")]),
    ("cft::update_covered", [("*", "P15")]),
    ("cft::update_changed_scores", [("*", "P15")]),
    ("cft::select_good_scores", [("*", "P15")]),
    ("cft::Pricer::operator()", [("return", "P05"), ("p2.col_map*", "P03 P12"), ("*", "P12")]),
    ("cft::ColFixing::operator()", [("p2*", "P11 P03"), ("p3*", "P11 P02 P03"), ("p4*", "P06"), ("p5*", "P11"), ("p0.rnd", "P08"), ("*", "P11")]),
    ("cft::fix_columns_and_compute_maps", [("*", "P11 P03")]),
    ("cft::remove_fixed_cols_from_inst", [("*", "P11 P02 P03")]),
    ("cft::make_identity_fixing_data", [("*", "P11 P02 P03")]),
    ("cft::local::RefinementFixManager::operator()", [("p0.rnd", "P08"), ("return", "P11 P10"), ("*", "P10")]),
    # instances
    ("cft::fill_rows_from_cols", [("*", "P18 P11 P12")]),
    ("cft::client::use_fill", [("*", "P18")]),
    ("cft::client::use_clear", [("*", "P11 P12")]),
    ("cft::client::use_push", [("*", "P12 P11")]),
    ("cft::push_back_col_from", [("*", "P12")]),
    ("cft::client::use_redcosts", [("*", "P05 P12")]),
    ("cft::client::use_run", [("return*", "P01 P02 P03 P04 P05"), ("*", "P10")]),
    ("cft::client::use_run_cold", [("return*", "P01 P02 P03 P04 P05"), ("*", "P10")]),
    # files
    ("cft::parse_scp_instance", [("throws", "P16 P17 P30"), ("*", "P18 P17")]),
    ("cft::parse_rail_instance", [("throws", "P16 P17 P30"), ("*", "P18 P17")]),
    ("cft::parse_cvrp_instance", [("throws", "P16 P17 P22 P30"), ("*", "P18 P17")]),
    ("cft::parse_mps_instance", [("throws", "P16 P17 P30"), ("*", "P18 P17")]),
    ("cft::parse_solution", [("throws", "P17 P22 P30"), ("*", "P22 P17")]),
    ("cft::parse_inst_and_initsol", [("throws", "P16 P17 P22 P30"), ("return.init_sol*", "P22"), ("return.inst*", "P18"), ("p0.rnd", "P08"), ("*", "P22 P18 P16 P17")]),
    ("cft::FileLineIterator::next", [("*", "P17")]),
    ("cft::FileLineIterator::ended", [("*", "P17")]),
    ("cft::client::fl_*", [("*", "P17 P21")]),
    ("cft::write_solution", [("*", "P21 P22")]),
    ("main", [("*", "P21")]),
    ("cft::parse_cli_args", [("*", "P20")]),
    ("cft::client::default_env", [("*", "P20")]),
    ("cft::string_to::parse", [("*", "P19 P17")]),
    ("cft::string_to::consume", [("*", "P19 P17")]),
    ("cft::client::num_*", [("*", "P19")]),
    ("cft::client::eat_*", [("*", "P19")]),
    ("cft::split", [("*", "P27 P17")]),
    # utilities
    ("cft::client::canon_*", [("*", "P25")]), ("cft::client::next_*", [("*", "P25 P08")]), ("cft::client::seed_*", [("*", "P25 P08")]),
    ("cft::client::real_*", [("*", "P25")]), ("cft::client::dice_*", [("*", "P25")]), ("cft::client::coin_*", [("*", "P25")]),
    ("cft::rnd_real", [("*", "P25")]), ("cft::canonical_gen", [("*", "P25")]), ("cft::coin_flip", [("*", "P25")]), ("cft::roll_dice", [("*", "P25")]),
    ("cft::client::sa_*", [("*", "P26")]), ("cft::client::sk_*", [("*", "P26")]), ("cft::client::sort_*", [("*", "P26")]),
    ("cft::client::nth_*", [("*", "P26")]), ("cft::client::rmin_*", [("*", "P26")]), ("cft::client::rm_if", [("*", "P26")]),
    ("cft::client::any_even", [("*", "P26")]), ("cft::client::all_even", [("*", "P26")]), ("cft::client::min*", [("*", "P26")]),
    ("cft::client::max*", [("*", "P26")]), ("cft::client::clamp_*", [("*", "P26")]), ("cft::client::abs_*", [("*", "P26")]),
    ("cft::client::size_*", [("*", "P26")]),
    ("cft::client::sv_*", [("*", "P27")]), ("cft::client::sp_*", [("*", "P27")]),
    ("cft::ltrim", [("*", "P27")]), ("cft::rtrim", [("*", "P27")]), ("cft::trim", [("*", "P27")]), ("cft::StringView::compare", [("*", "P27")]),
    ("cft::StringView::operator==", [("*", "P27")]), ("cft::StringView::operator!=", [("*", "P27")]),
    ("cft::client::mat_*", [("*", "P18")]),
    ("cft::client::cc_*", [("*", "P13")]),
    ("cft::CoverCounters::cover", [("*", "P13")]), ("cft::CoverCounters::uncover", [("*", "P13")]),
    ("cft::CoverCounters::is_redundant_cover", [("*", "P13")]), ("cft::CoverCounters::is_redundant_uncover", [("*", "P13")]),
    ("cft::client::ch_*", [("*", "P32")]), ("cft::Chrono::elapsed", [("*", "P32 P07")]),
    ("cft::client::to_*", [("*", "P28")]), ("cft::client::csize_v", [("*", "P28")]), ("cft::client::rsize_v", [("*", "P28")]),
    ("cft::client::pr*", [("*", "P09")]),
]
# the state these functors keep between calls is not an output: the properties ask that it never be read
IGNORE_THIS = {"cft::Greedy::operator()", "cft::Pricer::operator()", "cft::Subgradient::operator()", "cft::Subgradient::heuristic",
               "cft::ColFixing::operator()", "cft::ThreePhase::operator()"}

def expand(names):
    """[(unit, [(pattern, set of properties)])] for the names present in the reference tree."""
    out = []
    for q, outs in UNITS:
        ps = [(o, p.split()) for o, p in outs]
        if "*" in q:
            for n in sorted(names):
                if fnmatch.fnmatchcase(n, q): out.append((n, ps))
        else:
            out.append((q, ps))
    seen, res = set(), []
    for q, ps in out:
        if q in seen: continue
        seen.add(q); res.append((q, ps))
    return res

def props_of(ps, output):
    for pat, pr in ps:
        if fnmatch.fnmatchcase(output, pat): return pr
    return []
