"""Behaviour-preserving edits used to test that the checks stay quiet. Each entry: id -> [(file, old, new), ...]."""
R = {}
def r(i, *e): assert i not in R, i; R[i] = e

REF, TP, SG, SU, PR = "algorithms/Refinement.hpp", "algorithms/ThreePhase.hpp", "subgradient/Subgradient.hpp", "subgradient/utils.hpp", "subgradient/Pricer.hpp"
CF, FD, FC, GR, RD, SC = "fixing/ColFixing.hpp", "fixing/FixingData.hpp", "fixing/fix_columns.hpp", "greedy/Greedy.hpp", "greedy/redundancy.hpp", "greedy/scores.hpp"
IN, CU, PA, CL, PU = "core/Instance.hpp", "core/utils.hpp", "core/parsing.hpp", "core/CliArgs.hpp", "utils/parse_utils.hpp"
CC, SA, SV, SO, UT = "utils/CoverCounters.hpp", "utils/SortedArray.hpp", "utils/StringView.hpp", "utils/sort.hpp", "utils/utility.hpp"
RN, XO, CH, SP, MT, MA, PT = "utils/random.hpp", "utils/xoshiro_prng.hpp", "utils/Chrono.hpp", "utils/Span.hpp", "utils/SparseBinMat.hpp", "main.cpp", "utils/print.hpp"

# ------------------------------------------------------------------ Refinement
r("ref_from_fixed_index_loop", (REF, """        for (cidx_t j : sol.idxs)
            best_sol.idxs.push_back(fixing.curr2orig.col_map[j]);""", """        for (size_t n = 0; n < sol.idxs.size(); ++n)
            best_sol.idxs.push_back(fixing.curr2orig.col_map[sol.idxs[n]]);"""))
r("ref_from_fixed_reorder", (REF, """        best_sol.cost = sol.cost + fixing.fixed_cost;
        best_sol.idxs = fixing.fixed_cols;
        for (cidx_t j : sol.idxs)
            best_sol.idxs.push_back(fixing.curr2orig.col_map[j]);""", """        best_sol.idxs = fixing.fixed_cols;
        best_sol.idxs.reserve(fixing.fixed_cols.size() + sol.idxs.size());
        auto const& col_map = fixing.curr2orig.col_map;
        for (cidx_t j : sol.idxs)
            best_sol.idxs.emplace_back(col_map[j]);
        best_sol.cost = fixing.fixed_cost + sol.cost;"""))
r("ref_from_fixed_transform", (REF, """        for (cidx_t j : sol.idxs)
            best_sol.idxs.push_back(fixing.curr2orig.col_map[j]);""", """        std::transform(sol.idxs.begin(), sol.idxs.end(), std::back_inserter(best_sol.idxs),
                       [&](cidx_t j) { return fixing.curr2orig.col_map[j]; });"""))
r("ref_helper_gap", (REF, """    class RefinementFixManager {
""", """    // Gap contribution of a column of the solution.
    inline real_t column_gap(Instance const& inst, std::vector<real_t> const& mults,
                             CoverCounters const& coverage, cidx_t j) {
        real_t gap_contrib  = 0.0_F;
        real_t reduced_cost = inst.costs[j];
        for (ridx_t i : inst.cols[j]) {
            real_t cov = as_real(coverage[i]);
            gap_contrib += mults[i] * (cov - 1.0_F) / cov;
            reduced_cost -= mults[i];
        }
        return gap_contrib + max(reduced_cost, 0.0_F);
    }

    class RefinementFixManager {
"""), (REF, """                real_t gap_contrib  = 0.0_F;
                real_t reduced_cost = inst.costs[j];
                for (ridx_t i : inst.cols[j]) {
                    real_t cov = as_real(row_coverage[i]);
                    gap_contrib += best_lagr_mult[i] * (cov - 1.0_F) / cov;
                    reduced_cost -= best_lagr_mult[i];
                }
                gap_contrib += max(reduced_cost, 0.0_F);
                gap_contributions.push_back({j, gap_contrib});""", """                gap_contributions.push_back({j, column_gap(inst, best_lagr_mult, row_coverage, j)});"""))
r("ref_fixmanager_split_methods", (REF, """            row_coverage.reset(nrows);
            for (cidx_t j : best_sol.idxs)
                row_coverage.cover(inst.cols[j]);

            gap_contributions.clear();""", """            _cover(inst, best_sol);

            gap_contributions.clear();"""), (REF, """    public:
        // Finds a set of columns to fix""", """        void _cover(Instance const& inst, Solution const& sol) {
            row_coverage.reset(rsize(inst.rows));
            for (cidx_t j : sol.idxs)
                row_coverage.cover(inst.cols[j]);
        }

    public:
        // Finds a set of columns to fix"""))
r("ref_fixfraction_else", (REF, """            fix_fraction = min(1.0_F, fix_fraction * env.alpha);
            if (best_sol.cost < prev_cost)
                fix_fraction = env.min_fixing;
""", """            if (best_sol.cost < prev_cost)
                fix_fraction = env.min_fixing;
            else
                fix_fraction = min(1.0_F, fix_fraction * env.alpha);
"""))
r("ref_fixloop_while", (REF, """            for (CidxAndCost c : gap_contributions) {
                covered_rows += as_ridx(row_coverage.cover(inst.cols[c.idx]));
                if (covered_rows > nrows_to_fix)
                    break;
                cols_to_fix.push_back(c.idx);
            }
            return cols_to_fix;""", """            for (size_t n = 0; n < gap_contributions.size(); ++n) {
                cidx_t const j = gap_contributions[n].idx;
                covered_rows += as_ridx(row_coverage.cover(inst.cols[j]));
                if (!(covered_rows <= nrows_to_fix))
                    break;
                cols_to_fix.push_back(j);
            }
            return cols_to_fix;"""))
r("ref_run_init_ternary", (REF, """    auto best_sol   = Solution();
    best_sol.cost   = limits<real_t>::max();

    if (!warmstart_sol.idxs.empty())
        best_sol = warmstart_sol;
""", """    auto best_sol = Solution();
    if (warmstart_sol.idxs.empty())
        best_sol.cost = limits<real_t>::max();
    else
        best_sol = warmstart_sol;
"""))
r("ref_run_whileloop", (REF, """    for (size_t iter_counter = 0;; ++iter_counter) {

        auto result_3p""", """    size_t iter_counter = 0;
    while (true) {

        auto result_3p"""), (REF, """        if (inst.rows.empty() || env.timer.elapsed<sec>() > env.time_limit)
            break;
    }
    return {std::move(best_sol)""", """        if (inst.rows.empty() || env.timer.elapsed<sec>() > env.time_limit)
            break;
        ++iter_counter;
    }
    return {std::move(best_sol)"""))
r("ref_run_split_breaks", (REF, """        if (best_sol.cost <= max_cost || env.timer.elapsed<sec>() > env.time_limit)
            break;
""", """        bool const good_enough = best_sol.cost <= max_cost;
        if (good_enough)
            break;
        if (env.timer.elapsed<sec>() > env.time_limit)
            break;
"""))
r("ref_run_timeout_helper", (REF, """// Complete CFT algorithm (Refinement""", """namespace local { namespace {
    inline bool out_of_time(Environment const& env) {
        return env.timer.elapsed<sec>() > env.time_limit;
    }
}  // namespace
}  // namespace local

// Complete CFT algorithm (Refinement"""), (REF, """        if (best_sol.cost <= max_cost || env.timer.elapsed<sec>() > env.time_limit)""", """        if (best_sol.cost <= max_cost || local::out_of_time(env))"""),
  (REF, """        if (inst.rows.empty() || env.timer.elapsed<sec>() > env.time_limit)""", """        if (inst.rows.empty() || local::out_of_time(env))"""))
r("ref_run_update_best_helper", (REF, """// Complete CFT algorithm (Refinement""", """namespace local { namespace {
    inline void update_best(Solution const& sol, FixingData const& fixing, Solution& best_sol) {
        if (sol.cost + fixing.fixed_cost < best_sol.cost)
            from_fixed_to_unfixed_sol(sol, fixing, best_sol);
    }
}  // namespace
}  // namespace local

// Complete CFT algorithm (Refinement"""), (REF, """        if (result_3p.sol.cost + fixing.fixed_cost < best_sol.cost) {
            local::from_fixed_to_unfixed_sol(result_3p.sol, fixing, best_sol);
            CFT_IF_DEBUG(check_inst_solution(orig_inst, best_sol));
        }
""", """        local::update_best(result_3p.sol, fixing, best_sol);
"""))
r("ref_run_identity_order", (REF, """        inst             = orig_inst;
        auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
        make_identity_fixing_data(ncols, nrows, fixing);  // inst is the original one again
""", """        auto const cols_to_fix = select_cols_to_fix(env, orig_inst, nofix_dual.mults, best_sol);
        make_identity_fixing_data(ncols, nrows, fixing);  // inst is the original one again
        inst = orig_inst;
"""))
r("ref_run_braces_result", (REF, """    return {std::move(best_sol), std::move(nofix_dual)};""", """    auto result = CftResult();
    result.dual = std::move(nofix_dual);
    result.sol  = std::move(best_sol);
    return result;"""))
r("ref_run_first_iter_flag", (REF, """        if (iter_counter == 0) {
            nofix_dual""", """        bool const first_iter = iter_counter == 0;
        if (first_iter) {
            nofix_dual"""))

# ------------------------------------------------------------------ ThreePhase
r("tp_core_to_unfixed_inline_temps", (TP, """            cidx_t unprice_j = core.col_map[j];
            cidx_t unfixed_j = fixing.curr2orig.col_map[unprice_j];
            unfixed_sol.idxs.push_back(unfixed_j);""", """            unfixed_sol.idxs.push_back(fixing.curr2orig.col_map[core.col_map[j]]);"""))
r("tp_core_to_unfixed_index", (TP, """        for (cidx_t j : core_sol.idxs) {
            cidx_t unprice_j""", """        for (cidx_t n = 0_C; n < csize(core_sol.idxs); ++n) {
            cidx_t const j   = core_sol.idxs[n];
            cidx_t unprice_j"""))
r("tp_setup_reorder", (TP, """        _compute_greedy_multipliers(core.inst, lagr_mult);  // compute initial multipliers
        make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);  // init fixing
""", """        make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);  // init fixing
        _compute_greedy_multipliers(core.inst, lagr_mult);  // compute initial multipliers
"""))
r("tp_setup_inlined", (TP, """        _three_phase_setup(inst, greedy, sol, best_sol, core, lagr_mult, fixing);

        CFT_IF""", """        _build_tentative_core_instance(inst, core);
        _compute_greedy_multipliers(core.inst, lagr_mult);
        make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);
        sol.idxs.clear();
        sol.cost = greedy(core.inst, lagr_mult, core.inst.costs, sol.idxs);
        _from_core_to_unfixed_sol(sol, core, fixing, best_sol);

        CFT_IF"""), (TP, """    static void _three_phase_setup(Instance const&      inst,       // in
                                   Greedy&              greedy,     // cache
                                   Solution&            sol,        // cache
                                   Solution&            best_sol,   // out
                                   InstAndMap&          core,       // out
                                   std::vector<real_t>& lagr_mult,  // out
                                   FixingData&          fixing      // out
    ) {
        _build_tentative_core_instance(inst, core);         // init core instance
        _compute_greedy_multipliers(core.inst, lagr_mult);  // compute initial multipliers
        make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);  // init fixing

        // init sol
        sol.idxs.clear();
        sol.cost = greedy(core.inst, lagr_mult, core.inst.costs, sol.idxs);

        _from_core_to_unfixed_sol(sol, core, fixing, best_sol);  // init best_sol
        CFT_IF_DEBUG(check_inst_solution(inst, best_sol));
    }

""", ""))
r("tp_setup_member", (TP, """        _three_phase_setup(inst, greedy, sol, best_sol, core, lagr_mult, fixing);

        CFT_IF""", """        _setup(inst);

        CFT_IF"""), (TP, """    static void _three_phase_setup(Instance const&      inst,       // in
                                   Greedy&              greedy,     // cache
                                   Solution&            sol,        // cache
                                   Solution&            best_sol,   // out
                                   InstAndMap&          core,       // out
                                   std::vector<real_t>& lagr_mult,  // out
                                   FixingData&          fixing      // out
    ) {""", """    void _setup(Instance const& inst) {"""))
r("tp_gap_lambda", (TP, """        CFT_IF_DEBUG(auto inst_copy = inst);
""", """        auto closed = [&](real_t lb) { return lb + fixing.fixed_cost >= best_sol.cost - env.epsilon; };
        CFT_IF_DEBUG(auto inst_copy = inst);
"""), (TP, """            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon ||
                env.timer""", """            if (closed(real_lb) ||
                env.timer"""), (TP, """            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon)
                break;
        }""", """            if (closed(real_lb))
                break;
        }"""))
r("tp_while", (TP, """        for (size_t iter_counter = 0; !inst.rows.empty(); ++iter_counter) {
            auto timer""", """        size_t iter_counter = 0;
        while (!inst.rows.empty()) {
            auto timer"""), (TP, """            // For some reason, it seems that we get the tightest bound after the column fixing
            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon)
                break;
        }""", """            // For some reason, it seems that we get the tightest bound after the column fixing
            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon)
                break;
            ++iter_counter;
        }"""))
r("tp_nofix_fields", (TP, """                nofix_dual = {lagr_mult, real_lb};""", """            {
                nofix_dual.mults = lagr_mult;
                nofix_dual.lb    = real_lb;
            }"""))
r("tp_update_best_helper", (TP, """            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
            }
""", """            _update_best(sol, cutoff, core, fixing, best_sol);
"""), (TP, """private:
    static void _three""", """private:
    static void _update_best(Solution const& sol, real_t cutoff, InstAndMap const& core,
                             FixingData const& fixing, Solution& best_sol) {
        if (sol.cost >= cutoff)
            return;
        if (sol.cost + fixing.fixed_cost >= best_sol.cost)
            return;
        _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
    }

    static void _three"""))
r("tp_perturb_index", (TP, """        for (real_t& u : lagr_mult) {
            u *= rnd_real(rnd, 0.9_F, 1.1_F);
            assert(std::isfinite(native_cast(u)) && "Multiplier is not finite");
        }""", """        for (size_t i = 0; i < lagr_mult.size(); ++i) {
            real_t const factor = rnd_real(rnd, 0.9_F, 1.1_F);
            lagr_mult[i]        = lagr_mult[i] * factor;
        }"""))
r("tp_mults_local_min", (TP, """        lagr_mult.assign(rsize(inst.rows), limits<real_t>::max());
        for (ridx_t i = 0_R; i < rsize(inst.rows); ++i)
            for (cidx_t j : inst.rows[i]) {
                real_t candidate = inst.costs[j] / as_real(inst.cols[j].size());
                lagr_mult[i]     = cft::min(lagr_mult[i], candidate);
            }""", """        ridx_t const nrows = rsize(inst.rows);
        lagr_mult.assign(nrows, limits<real_t>::max());
        for (ridx_t i = 0_R; i < nrows; ++i) {
            real_t best = limits<real_t>::max();
            for (cidx_t j : inst.rows[i]) {
                real_t candidate = inst.costs[j] / as_real(inst.cols[j].size());
                if (candidate < best)
                    best = candidate;
            }
            lagr_mult[i] = best;
        }"""))
r("tp_mults_rangefor_rows", (TP, """        lagr_mult.assign(rsize(inst.rows), limits<real_t>::max());
        for (ridx_t i = 0_R; i < rsize(inst.rows); ++i)
            for (cidx_t j : inst.rows[i]) {
                real_t candidate = inst.costs[j] / as_real(inst.cols[j].size());
                lagr_mult[i]     = cft::min(lagr_mult[i], candidate);
            }""", """        lagr_mult.clear();
        for (auto const& row : inst.rows) {
            real_t best = limits<real_t>::max();
            for (cidx_t j : row)
                best = cft::min(best, inst.costs[j] / as_real(inst.cols[j].size()));
            lagr_mult.push_back(best);
        }"""))
r("tp_tentative_limit_var", (TP, """        for (auto const& row : inst.rows)
            for (size_t n = 0; n < min(row.size(), min_row_coverage); ++n) {
                cidx_t j = row[n];  // column covering row i
                core_inst.col_map.push_back(j);
            }""", """        for (auto const& row : inst.rows) {
            size_t const limit = min(row.size(), min_row_coverage);
            for (size_t n = 0; n < limit; ++n)
                core_inst.col_map.push_back(row[n]);
        }"""))
r("tp_tentative_unique_if", (TP, """            if (j == old_j)
                continue;  // Skip duplicate
            old_j                  = j;
            core_inst.col_map[w++] = j;                   // Store 1 column per set of duplicates
            push_back_col_from(inst, j, core_inst.inst);  // Add column to core_inst
        }""", """            if (j != old_j) {
                old_j = j;
                core_inst.col_map[w] = j;
                ++w;
                push_back_col_from(inst, j, core_inst.inst);
            }
        }"""))
r("tp_tentative_std_unique", (TP, """        cidx_t w     = 0_C;
        cidx_t old_j = removed_cidx;  // To detect duplicates
        for (cidx_t j : core_inst.col_map) {
            if (j == old_j)
                continue;  // Skip duplicate
            old_j                  = j;
            core_inst.col_map[w++] = j;                   // Store 1 column per set of duplicates
            push_back_col_from(inst, j, core_inst.inst);  // Add column to core_inst
        }
        core_inst.col_map.resize(w);
""", """        core_inst.col_map.erase(std::unique(core_inst.col_map.begin(), core_inst.col_map.end()),
                                core_inst.col_map.end());
        for (cidx_t j : core_inst.col_map)
            push_back_col_from(inst, j, core_inst.inst);
"""))

# ------------------------------------------------------------------ Subgradient
r("sg_accumulate", (SG, """        lb_sol.cost = 0.0_F;
        for (real_t const value : lagr_mult)
            lb_sol.cost += value;
""", """        lb_sol.cost = std::accumulate(lagr_mult.begin(), lagr_mult.end(), 0.0_F);
"""), (SG, "#include \"subgradient/utils.hpp\"\n", "#include \"subgradient/utils.hpp\"\n#include <numeric>\n"))
r("sg_lbsol_local", (SG, """        lb_sol.idxs.clear();
        lb_sol.cost = 0.0_F;
        for (real_t const value : lagr_mult)
            lb_sol.cost += value;

        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t j) {
            if (red_cost < 0.0_F) {
                lb_sol.idxs.push_back(j);
                lb_sol.cost += red_cost;
            }
        });""", """        real_t lb = 0.0_F;
        for (size_t i = 0; i < lagr_mult.size(); ++i)
            lb += lagr_mult[i];

        lb_sol.idxs.clear();
        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t j) {
            if (red_cost >= 0.0_F)
                return;
            lb += red_cost;
            lb_sol.idxs.push_back(j);
        });
        lb_sol.cost = lb;"""))
r("sg_lbsol_second_loop", (SG, """        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t j) {
            if (red_cost < 0.0_F) {
                lb_sol.idxs.push_back(j);
                lb_sol.cost += red_cost;
            }
        });""", """        compute_reduced_costs(inst, lagr_mult, reduced_costs);
        for (cidx_t j = 0_C; j < csize(inst.cols); ++j)
            if (reduced_costs[j] < 0.0_F) {
                lb_sol.idxs.push_back(j);
                lb_sol.cost += reduced_costs[j];
            }"""))
r("sg_update_mult_inline", (SG, """            auto violation = 1.0_F - as_real(row_coverage[i]);

            real_t old_mult   = lagr_mult[i];
            real_t delta_mult = step_factor * violation;

            // Clamp to avoid numerical issues
            lagr_mult[i] = clamp(old_mult + delta_mult, 0.0_F, 1e6_F);""", """            real_t const violation = 1.0_F - as_real(row_coverage[i]);
            lagr_mult[i] = clamp(lagr_mult[i] + violation * step_factor, 0.0_F, 1e6_F);"""))
r("sg_update_mult_minmax", (SG, """            lagr_mult[i] = clamp(old_mult + delta_mult, 0.0_F, 1e6_F);""", """            real_t const new_mult = old_mult + delta_mult;
            if (new_mult < 0.0_F)
                lagr_mult[i] = 0.0_F;
            else if (new_mult > 1e6_F)
                lagr_mult[i] = 1e6_F;
            else
                lagr_mult[i] = new_mult;"""))
r("sg_coverage_if", (SG, """            auto col = inst.cols[j];
            if (!row_coverage.is_redundant_cover(col))
                row_coverage.cover(col);
        }""", """            if (row_coverage.is_redundant_cover(inst.cols[j]))
                continue;
            row_coverage.cover(inst.cols[j]);
        }"""))
r("sg_norm_reversed", (SG, """        int64_t sqr_norm = 0;
        for (ridx_t i = 0_R; i < rsize(row_coverage); ++i) {
            int64_t violation = 1 - checked_cast<int64_t>(row_coverage[i]);
            sqr_norm += violation * violation;
        }
        return as_real(sqr_norm);""", """        size_t const nrows    = row_coverage.size();
        int64_t      sqr_norm = 0;
        for (size_t i = 0; i < nrows; ++i) {
            int64_t const violation = checked_cast<int64_t>(row_coverage[i]) - 1;
            sqr_norm                = sqr_norm + violation * violation;
        }
        return as_real(sqr_norm);"""))
r("sg_heur_cover_helper", (SG, """            row_coverage.reset(rsize(core_inst.rows));
            for (cidx_t j : lb_sol.idxs)
                row_coverage.cover(core_inst.cols[j]);
            real_t sqr_norm""", """            _compute_row_coverage(core_inst, lb_sol, row_coverage);
            real_t sqr_norm"""), (SG, """private:
    // Initialize lower""", """private:
    static void _compute_row_coverage(Instance const& inst, Solution const& sol, CoverCounters& row_coverage) {
        row_coverage.reset(rsize(inst.rows));
        for (cidx_t j : sol.idxs)
            row_coverage.cover(inst.cols[j]);
    }

    // Initialize lower"""))
r("sg_heur_while", (SG, """        for (size_t iter = 0; iter < env.heur_iters; ++iter) {

            _update""", """        size_t iter = 0;
        while (iter < env.heur_iters) {

            _update"""), (SG, """            if (env.timer.elapsed<sec>() > env.time_limit)
                break;
        }

        print<4>(env, "HEUR> Heur""", """            if (env.timer.elapsed<sec>() > env.time_limit)
                break;
            ++iter;
        }

        print<4>(env, "HEUR> Heur"""))
r("sg_heur_sqrnorm_moved", (SG, """            row_coverage.reset(rsize(core_inst.rows));
            for (cidx_t j : lb_sol.idxs)
                row_coverage.cover(core_inst.cols[j]);
            real_t sqr_norm = _compute_subgrad_sqr_norm(row_coverage);

            if (lb_sol.cost > best_core_lb) {
                best_core_lb   = lb_sol.cost;
                best_lagr_mult = lagr_mult;
            }
""", """            if (lb_sol.cost > best_core_lb) {
                best_lagr_mult = lagr_mult;
                best_core_lb   = lb_sol.cost;
            }

            row_coverage.reset(rsize(core_inst.rows));
            for (cidx_t j : lb_sol.idxs)
                row_coverage.cover(core_inst.cols[j]);
            real_t const sqr_norm = _compute_subgrad_sqr_norm(row_coverage);
"""))
r("sg_heur_return_break", (SG, """            if (best_core_lb >= best_sol.cost - env.epsilon)
                return;
""", """            if (best_core_lb >= cutoff - env.epsilon)
                break;
"""))
r("sg_loop_cond_inside", (SG, """        for (size_t iter = 0; iter < max_iters && best_real_lb < max_real_lb; ++iter) {
""", """        for (size_t iter = 0; iter < max_iters; ++iter) {
            if (best_real_lb >= max_real_lb)
                break;
"""))
r("sg_price_block_helper_var", (SG, """            if (should_price(iter) && iter < max_iters - 1) {""", """            bool const last_iter = iter >= max_iters - 1;
            if (!last_iter && should_price(iter)) {"""))
r("sg_step_compute_order", (SG, """            step_size          = next_step_size(iter, lb_sol.cost);
            real_t step_factor = step_size * (cutoff - lb_sol.cost) / sqr_norm;
            _update_lagr_mult(row_coverage, step_factor, lagr_mult);

            if (should_price""", """            real_t const lb_gap = cutoff - lb_sol.cost;
            step_size           = next_step_size(iter, lb_sol.cost);
            _update_lagr_mult(row_coverage, step_size * lb_gap / sqr_norm, lagr_mult);

            if (should_price"""))
r("sg_reset_swap", (SG, """        best_core_lb = limits<real_t>::min();
        lb_sol.cost  = limits<real_t>::min();
        lb_sol.idxs.clear();
    }""", """        lb_sol.idxs.clear();
        lb_sol.cost = best_core_lb = limits<real_t>::min();
    }"""))
r("sg_reduced_cov_inlined", (SG, """            _compute_reduced_row_coverage(core.inst, reduced_costs, row_coverage, lb_sol);
""", """            cft::sort(lb_sol.idxs, [&](cidx_t j) { return reduced_costs[j]; });
            row_coverage.reset(rsize(core.inst.rows));
            for (cidx_t j : lb_sol.idxs) {
                auto col = core.inst.cols[j];
                if (!row_coverage.is_redundant_cover(col))
                    row_coverage.cover(col);
            }
"""), (SG, """    // Computes the row coverage of the given solution by including the best non-redundant columns.
    static void _compute_reduced_row_coverage(Instance const&            inst,           // in
                                              std::vector<real_t> const& reduced_costs,  // in
                                              CoverCounters&             row_coverage,   // out
                                              Solution&                  lb_sol          // out
    ) {
        row_coverage.reset(rsize(inst.rows));
        cft::sort(lb_sol.idxs, [&](cidx_t j) { return reduced_costs[j]; });

        for (cidx_t j : lb_sol.idxs) {
            auto col = inst.cols[j];
            if (!row_coverage.is_redundant_cover(col))
                row_coverage.cover(col);
        }
    }

""", ""))
# ------------------------------------------------------------------ subgradient utils
r("su_step_early_return", (SU, """            if (iter == next_update_iter) {
                next_update_iter += period;
                real_t diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
                assert(diff >= 0.0_F && "Negative difference in lower bounds");
                if (diff > 0.01_F)
                    curr_step_size /= 2.0_F;
                if (diff <= 0.001_F)
                    curr_step_size *= 1.5_F;

                // Not described in the paper, but in rare cases the subgradient diverges
                curr_step_size = clamp(curr_step_size, 1e-6_F, 10.0_F);

                min_lower_bound = limits<real_t>::max();
                max_lower_bound = limits<real_t>::min();
            }
            return curr_step_size;""", """            if (iter != next_update_iter)
                return curr_step_size;

            real_t const diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
            if (diff > 0.01_F)
                curr_step_size /= 2.0_F;
            else if (diff <= 0.001_F)
                curr_step_size *= 1.5_F;
            curr_step_size = clamp(curr_step_size, 1e-6_F, 10.0_F);

            max_lower_bound = limits<real_t>::min();
            min_lower_bound = limits<real_t>::max();
            next_update_iter += period;
            return curr_step_size;"""))
r("su_exit_invert", (SU, """            if (iter == next_update_iter) {
                next_update_iter += period;
                real_t abs_improvement = lower_bound - prev_lower_bound;
                real_t rel_improvement = abs_improvement / lower_bound;
                prev_lower_bound       = lower_bound;
                return abs_improvement < env.abs_subgrad_exit &&
                       rel_improvement < env.rel_subgrad_exit;
            }
            return false;""", """            if (iter != next_update_iter)
                return false;
            next_update_iter += period;
            real_t const abs_improvement = lower_bound - prev_lower_bound;
            prev_lower_bound             = lower_bound;
            bool const small_abs         = abs_improvement < env.abs_subgrad_exit;
            bool const small_rel         = abs_improvement / lower_bound < env.rel_subgrad_exit;
            return small_abs && small_rel;"""))
r("su_pricing_factor", (SU, """            if (delta <= 1e-6_F)
                period = min(max_period_increment, 10 * period);
            else if (delta <= 0.02_F)
                period = min(max_period_increment, 5 * period);
            else if (delta <= 0.2_F)
                period = min(max_period_increment, 2 * period);
            else
                period = 10;

            next_update_iter += period;""", """            if (delta > 0.2_F)
                period = 10;
            else {
                size_t const factor = delta <= 1e-6_F ? 10 : (delta <= 0.02_F ? 5 : 2);
                period              = min(max_period_increment, factor * period);
            }

            next_update_iter = next_update_iter + period;"""))
# ------------------------------------------------------------------ Pricer
r("pr_c1_loop_count", (PR, """        for (cidx_t j = 0_C; j < csize(inst.cols); ++j)
            if (reduced_costs[j] < 0.1_F)
                idxs.push_back(j);
""", """        cidx_t const ncols = csize(inst.cols);
        for (cidx_t j = 0_C; j < ncols; ++j) {
            if (reduced_costs[j] >= 0.1_F)
                continue;
            idxs.push_back(j);
        }
"""))
r("pr_mark_helper", (PR, """        for (cidx_t j : idxs)
            taken_idxs[j] = true;
    }
""", """        _mark_taken(idxs, taken_idxs);
    }

    static void _mark_taken(std::vector<cidx_t> const& idxs, std::vector<bool>& taken_idxs) {
        for (size_t n = 0; n < idxs.size(); ++n)
            taken_idxs[idxs[n]] = true;
    }
"""))
r("pr_c2_continue", (PR, """                if (!taken_idxs[j]) {
                    taken_idxs[j] = true;
                    idxs.push_back(j);
                }""", """                if (taken_idxs[j])
                    continue;
                idxs.push_back(j);
                taken_idxs[j] = true;"""))
r("pr_c2_rows_range", (PR, """        ridx_t const nrows = rsize(inst.rows);

        auto heap""", """        auto heap"""), (PR, """        for (ridx_t i = 0_R; i < nrows; ++i) {
            heap.clear();
            for (cidx_t j : inst.rows[i])""", """        for (auto const& row : inst.rows) {
            heap.clear();
            for (cidx_t j : row)"""))
r("pr_c2_heap_inside", (PR, """        auto heap = make_custom_key_sorted_array<cidx_t, mincov>(
            [&](cidx_t j) { return reduced_costs[j]; });

        for (ridx_t i = 0_R; i < nrows; ++i) {
            heap.clear();
            for""", """        for (ridx_t i = 0_R; i < nrows; ++i) {
            auto heap = make_custom_key_sorted_array<cidx_t, mincov>(
                [&](cidx_t j) { return reduced_costs[j]; });
            for"""))
r("pr_init_clear_inst", (PR, """        core_inst.cols.clear();
        core_inst.rows.clear();
        core_inst.costs.clear();
        for""", """        clear_inst(core_inst);
        for"""))
r("pr_lb_separate", (PR, """        real_t real_lower_bound = 0.0_F;
        for (real_t u : lagr_mult)
            real_lower_bound += u;

        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t /*j*/) {
            if (red_cost < 0.0_F)
                real_lower_bound += red_cost;
        });

        return real_lower_bound;""", """        compute_reduced_costs(inst, lagr_mult, reduced_costs);

        real_t lb = 0.0_F;
        for (ridx_t i = 0_R; i < rsize(lagr_mult); ++i)
            lb += lagr_mult[i];
        for (real_t c : reduced_costs)
            lb += c < 0.0_F ? c : 0.0_F;
        return lb;"""))
r("pr_guard_split", (PR, """        if (nrows == 0_R || ncols == 0_C)
            return 0.0_F;
""", """        if (nrows == 0_R)
            return 0.0_F;
        if (ncols == 0_C)
            return 0.0_F;
"""))
r("pr_reorder_setup", (PR, """        core.col_map.clear();
        taken_idxs.assign(ncols, false);

        auto real_lower_bound = _compute_col_reduced_costs(inst, lagr_mult, reduced_costs);
""", """        real_t const real_lower_bound = _compute_col_reduced_costs(inst, lagr_mult, reduced_costs);

        taken_idxs.assign(ncols, false);
        core.col_map.clear();
"""))
# ------------------------------------------------------------------ ColFixing / FixingData / fix_columns
r("cf_flag_loop", (CF, """            if (any(inst.cols[j], [&](ridx_t i) { return row_coverage[i] > 1; }))
                j = removed_cidx;""", """        {
            bool overlaps = false;
            for (ridx_t i : inst.cols[j])
                if (row_coverage[i] > 1)
                    overlaps = true;
            if (overlaps)
                j = removed_cidx;
        }"""))
r("cf_direct_remove", (CF, """        for (cidx_t& j : cols_to_fix)
            // If you read the paper and do not understand this line, you are not alone.
            // However, if we fix all non-redundant columns, we fix too much and the
            // algorithm terminates in few terations without finding anything good.
            // Fixing only non-overlapping instead, fixes way less and performs better.
            if (any(inst.cols[j], [&](ridx_t i) { return row_coverage[i] > 1; }))
                j = removed_cidx;
        remove_if(cols_to_fix, [](cidx_t j) { return j == removed_cidx; });""", """        remove_if(cols_to_fix, [&](cidx_t j) {
            return any(inst.cols[j], [&](ridx_t i) { return row_coverage[i] > 1; });
        });"""))
r("cf_two_pass", (CF, """        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t j) {
            if (red_cost < col_fix_thresh) {
                cols_to_fix.push_back(j);
                row_coverage.cover(inst.cols[j]);
            }
        });""", """        compute_reduced_costs(inst, lagr_mult, reduced_costs, [&](real_t red_cost, cidx_t j) {
            if (red_cost < col_fix_thresh)
                cols_to_fix.push_back(j);
        });
        for (cidx_t j : cols_to_fix)
            row_coverage.cover(inst.cols[j]);"""))
r("cf_mults_rangefor", (CF, """        ridx_t old_nrows = rsize(old2new.row_map);
        ridx_t new_i     = 0_R;
        for (ridx_t old_i = 0_R; old_i < old_nrows; ++old_i)
            if (old2new.row_map[old_i] != removed_ridx) {
                assert(new_i <= old_i);
                assert(new_i == old2new.row_map[old_i]);
                lagr_mult[new_i] = lagr_mult[old_i];
                ++new_i;
            }
        lagr_mult.resize(new_i);""", """        ridx_t new_i = 0_R;
        for (ridx_t old_i = 0_R; old_i < rsize(old2new.row_map); ++old_i) {
            if (old2new.row_map[old_i] == removed_ridx)
                continue;
            lagr_mult[new_i++] = lagr_mult[old_i];
        }
        lagr_mult.resize(new_i);"""))
r("cf_fix_at_least", (CF, """        cidx_t fix_at_least = csize(cols_to_fix) + max(1_C, as_cidx(orig_nrows / 200_R));""", """        cidx_t const min_extra = max(1_C, as_cidx(orig_nrows / 200_R));
        cidx_t fix_at_least = no_overlap_ncols + min_extra;"""))
r("fd_identity_iota", (FD, """    fixing.curr2orig.col_map.resize(ncols);
    fixing.curr2orig.row_map.resize(nrows);
    fixing.fixed_cols.clear();
    fixing.fixed_cost = 0.0_F;

    for (cidx_t j = 0_C; j < ncols; ++j)
        fixing.curr2orig.col_map[j] = j;
    for (ridx_t i = 0_R; i < nrows; ++i)
        fixing.curr2orig.row_map[i] = i;""", """    fixing.fixed_cost = 0.0_F;
    fixing.fixed_cols.clear();

    auto& maps = fixing.curr2orig;
    maps.col_map.resize(ncols);
    std::iota(maps.col_map.begin(), maps.col_map.end(), 0_C);
    maps.row_map.resize(nrows);
    std::iota(maps.row_map.begin(), maps.row_map.end(), 0_R);"""), (FD, '#include "core/Instance.hpp"\n', '#include "core/Instance.hpp"\n#include <numeric>\n'))
r("fd_identity_pushback", (FD, """    fixing.curr2orig.col_map.resize(ncols);
    fixing.curr2orig.row_map.resize(nrows);
    fixing.fixed_cols.clear();
    fixing.fixed_cost = 0.0_F;

    for (cidx_t j = 0_C; j < ncols; ++j)
        fixing.curr2orig.col_map[j] = j;
    for (ridx_t i = 0_R; i < nrows; ++i)
        fixing.curr2orig.row_map[i] = i;""", """    fixing.fixed_cols.clear();
    fixing.fixed_cost = 0.0_F;
    fixing.curr2orig.col_map.clear();
    for (cidx_t j = 0_C; j < ncols; ++j)
        fixing.curr2orig.col_map.push_back(j);
    fixing.curr2orig.row_map.clear();
    for (ridx_t i = 0_R; i < nrows; ++i)
        fixing.curr2orig.row_map.push_back(i);"""))
r("fd_add_cols_split", (FD, """        for (cidx_t j : cols_to_fix) {
            assert("Column not in instance" && j < csize(inst.cols));
            cidx_t orig_j = fixing.curr2orig
                                .col_map[j];  // Use old fixing to store original indexes
            assert(orig_j != removed_cidx);
            fixing.fixed_cols.push_back(orig_j);
            fixing.fixed_cost += inst.costs[j];
        }""", """        auto const& col_map = fixing.curr2orig.col_map;
        for (cidx_t j : cols_to_fix)
            fixing.fixed_cols.push_back(col_map[j]);
        for (cidx_t j : cols_to_fix)
            fixing.fixed_cost += inst.costs[j];"""))
r("fd_apply_maps_helper", (FD, """        // Update original col mappings
        for (cidx_t old_j = 0_C; old_j < old_ncols; ++old_j) {
            cidx_t new_j = old2new.col_map[old_j];
            if (new_j != removed_cidx)
                fixing.curr2orig.col_map[new_j] = fixing.curr2orig.col_map[old_j];
        }
        fixing.curr2orig.col_map.resize(new_ncols);

        // Update original row mappings
        for (ridx_t old_i = 0_R; old_i < old_nrows; ++old_i) {
            ridx_t new_i = old2new.row_map[old_i];
            if (new_i != removed_ridx)
                fixing.curr2orig.row_map[new_i] = fixing.curr2orig.row_map[old_i];
        }
        fixing.curr2orig.row_map.resize(new_nrows);""", """        update_map(old2new.col_map, removed_cidx, new_ncols, fixing.curr2orig.col_map);
        update_map(old2new.row_map, removed_ridx, new_nrows, fixing.curr2orig.row_map);
        (void)old_ncols;
        (void)old_nrows;"""), (FD, """    // Invoke AFTER having""", """    template <typename IdxT>
    void update_map(std::vector<IdxT> const& old2new, IdxT removed, IdxT new_size, std::vector<IdxT>& curr2orig) {
        for (size_t old_i = 0; old_i < old2new.size(); ++old_i) {
            IdxT new_i = old2new[old_i];
            if (new_i != removed)
                curr2orig[new_i] = curr2orig[old_i];
        }
        curr2orig.resize(new_size);
    }

    // Invoke AFTER having"""))
r("fd_wrapper_inlined", (FD, """    local::add_cols_to_fixing_data(inst, cols_to_fix, fixing);  // Before removing fixed columns
""", """    for (cidx_t j : cols_to_fix) {
        fixing.fixed_cols.push_back(fixing.curr2orig.col_map[j]);
        fixing.fixed_cost += inst.costs[j];
    }
"""), (FD, """    // Invoke BEFORE removing fixed columns from the instance, otherwise `cols_to_fix` indexes will
    // not match the correct columns in `inst` (since they have just been removed).
    inline void add_cols_to_fixing_data(Instance const&            inst,         // in
                                        std::vector<cidx_t> const& cols_to_fix,  // in
                                        FixingData&                fixing        // inout
    ) {
        assert("Size mismatch between fixing data and inst columns" &&
               csize(fixing.curr2orig.col_map) == csize(inst.cols));

        // Use old fixing data to insert fixed columns and costs
        for (cidx_t j : cols_to_fix) {
            assert("Column not in instance" && j < csize(inst.cols));
            cidx_t orig_j = fixing.curr2orig
                                .col_map[j];  // Use old fixing to store original indexes
            assert(orig_j != removed_cidx);
            fixing.fixed_cols.push_back(orig_j);
            fixing.fixed_cost += inst.costs[j];
        }
    }

""", ""))
r("fc_maps_if", (FC, """                removed_rows += (old2new.row_map[i] != removed_ridx ? 1_R : 0_R);
                old2new.row_map[i] = removed_ridx;""", """                if (old2new.row_map[i] != removed_ridx) {
                    old2new.row_map[i] = removed_ridx;
                    ++removed_rows;
                }"""))
r("fc_maps_else_order", (FC, """            if (old2new.col_map[old_j] == removed_cidx)
                continue;
            if (any(inst.cols[old_j], [&](ridx_t i) { return old2new.row_map[i] != removed_ridx; }))
                old2new.col_map[old_j] = new_j++;
            else
                old2new.col_map[old_j] = removed_cidx;  // Remove empty columns""", """            if (old2new.col_map[old_j] != removed_cidx) {
                bool const is_empty = all(inst.cols[old_j], [&](ridx_t i) { return old2new.row_map[i] == removed_ridx; });
                old2new.col_map[old_j] = is_empty ? removed_cidx : new_j++;
            }"""))
r("fc_maps_three_helpers", (FC, """        // Complete cols mappings for the remaining cols (and remove empty ones)
        cidx_t new_j = 0_C;
        for (cidx_t old_j = 0_C; old_j < csize(old2new.col_map); ++old_j) {
            if (old2new.col_map[old_j] == removed_cidx)
                continue;
            if (any(inst.cols[old_j], [&](ridx_t i) { return old2new.row_map[i] != removed_ridx; }))
                old2new.col_map[old_j] = new_j++;
            else
                old2new.col_map[old_j] = removed_cidx;  // Remove empty columns
        }
""", """        renumber_cols(inst, old2new);
"""), (FC, """    inline ridx_t compute_maps_from""", """    inline void renumber_cols(Instance const& inst, IdxsMaps& old2new) {
        cidx_t next = 0_C;
        for (cidx_t j = 0_C; j < csize(old2new.col_map); ++j) {
            cidx_t& new_j = old2new.col_map[j];
            if (new_j == removed_cidx)
                continue;
            bool const alive = any(inst.cols[j], [&](ridx_t i) { return old2new.row_map[i] != removed_ridx; });
            new_j            = alive ? next++ : removed_cidx;
        }
    }

    inline ridx_t compute_maps_from"""))
r("fc_rowmap_index", (FC, """        ridx_t n = 0_R;
        for (ridx_t& new_i : old2new.row_map)
            if (new_i != removed_ridx)
                new_i = n++;
        assert(rsize(old2new.row_map) - n == removed_rows);
""", """        ridx_t n = 0_R;
        for (ridx_t i = 0_R; i < rsize(old2new.row_map); ++i) {
            if (old2new.row_map[i] == removed_ridx)
                continue;
            old2new.row_map[i] = n;
            ++n;
        }
"""))
r("fc_colmap_if", (FC, """            if (old2new.col_map[old_j] == removed_cidx)
                continue;

            assert(new_j == old2new.col_map[old_j]);
            size_t new_beg_idx = n;  // save here to set cols.begs[new_j] later
            for (ridx_t old_i : inst.cols[old_j]) {
                ridx_t new_i = old2new.row_map[old_i];
                if (new_i != removed_ridx)
                    inst.cols.idxs[n++] = new_i;
            }

            inst.cols.begs[new_j] = new_beg_idx;  // here to not invalidate current column
            inst.costs[new_j]     = inst.costs[old_j];
            ++new_j;
        }""", """            if (old2new.col_map[old_j] != removed_cidx) {
                size_t const new_beg_idx = n;
                auto const   col         = inst.cols[old_j];
                for (ridx_t old_i : col) {
                    ridx_t new_i = old2new.row_map[old_i];
                    if (new_i == removed_ridx)
                        continue;
                    inst.cols.idxs[n] = new_i;
                    n++;
                }

                inst.costs[new_j]     = inst.costs[old_j];
                inst.cols.begs[new_j] = new_beg_idx;
                new_j++;
            }
        }"""))
r("fc_rowmap_apply_remove_if", (FC, """            auto& old_row = inst.rows[old_i];
            auto& new_row = inst.rows[new_i++];
            new_row.resize(old_row.size());

            cidx_t w = 0_C;
            for (cidx_t old_j : old_row) {
                cidx_t new_j = old2new.col_map[old_j];
                if (new_j != removed_cidx)
                    new_row[w++] = new_j;
            }
            new_row.resize(w);
            assert(!new_row.empty() && "Empty row after fixing -> infeasible core instance");
        }""", """            auto new_row = std::vector<cidx_t>();
            for (cidx_t old_j : inst.rows[old_i])
                if (old2new.col_map[old_j] != removed_cidx)
                    new_row.push_back(old2new.col_map[old_j]);
            inst.rows[new_i++] = std::move(new_row);
        }"""))
r("fc_remove_else", (FC, """    if (removed_rows == rsize(inst.rows))
        return clear_inst(inst);

    local::inplace_apply_col_map(old2new, inst);
    local::inplace_apply_row_map(old2new, inst);
""", """    if (removed_rows == rsize(inst.rows)) {
        clear_inst(inst);
        return;
    }

    local::inplace_apply_row_map(old2new, inst);
    local::inplace_apply_col_map(old2new, inst);
"""))
# ------------------------------------------------------------------ Greedy & co
r("gr_early_exit_split", (GR, """        if (!redund_info.redund_set.empty() &&
            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
            return false;  // Partial cover not completed yet, continue
""", """        bool const complete = redund_info.partial_cov_count >= rsize(redund_info.partial_cover);
        if (!complete && !redund_info.redund_set.empty())
            return false;  // Partial cover not completed yet, continue
"""))
r("gr_removal_helper", (GR, """        if (redund_info.best_cost < cutoff_cost)
            remove_if(sol, [&](cidx_t j) {
                return any(redund_info.cols_to_remove, [j](cidx_t r) { return r == j; });
            });

        return redund_info.best_cost;
    }
""", """        if (redund_info.best_cost < cutoff_cost)
            _remove_cols(redund_info.cols_to_remove, sol);

        return redund_info.best_cost;
    }

    static void _remove_cols(std::vector<cidx_t> const& to_remove, std::vector<cidx_t>& sol) {
        remove_if(sol, [&](cidx_t j) { return any(to_remove, [j](cidx_t r) { return r == j; }); });
    }
"""), (GR, """        remove_if(sol, [&](cidx_t j) {
            return any(redund_info.cols_to_remove, [j](cidx_t r) { return r == j; });
        });

        return true;""", """        _remove_cols(redund_info.cols_to_remove, sol);

        return true;"""))
r("gr_good_size_var", (GR, """                auto good_size   = min(as_cidx(nrows_to_cover), csize(inst.cols) - csize(sol));
                good_scores      = select_good_scores(score_info, good_size);""", """                cidx_t const ncols_left = csize(inst.cols) - csize(sol);
                good_scores             = select_good_scores(score_info, min(as_cidx(nrows_to_cover), ncols_left));"""))
r("gr_loop_break", (GR, """        while (nrows_to_cover > 0_R && csize(sol) < max_sol_size) {
""", """        while (nrows_to_cover > 0_R) {
            if (csize(sol) >= max_sol_size)
                break;
"""))
r("gr_cover_before_update", (GR, """            auto   min_score = range_min(good_scores, ScoreKey{});
            cidx_t jstar     = min_score.idx;
            assert(min_score.score < limits<real_t>::max() && "Illegal score");
            assert(!any(sol, [=](cidx_t j) { return j == jstar; }) && "Duplicate column");
            sol.push_back(jstar);
""", """            cidx_t const jstar = range_min(good_scores, ScoreKey{}).idx;
            sol.push_back(jstar);
"""))
r("gr_nested_return", (GR, """        if (nrows_to_cover == 0_R)
            return sol_cost;
""", """        if (nrows_to_cover == 0_R)
            return limits<real_t>::max();
"""))
r("gr_hook_invert", (GR, """                if (s < csize(good_scores) && good_scores[s].score >= worst_good_score) {
                    cidx_t s_j    = good_scores[s].idx;
                    cidx_t back_j = good_scores.back().idx;
                    std::swap(good_scores[s], good_scores.back());
                    std::swap(score_info.score_map[s_j], score_info.score_map[back_j]);
                    good_scores = make_span(good_scores.begin(), good_scores.end() - 1U);
                }""", """                if (s >= csize(good_scores) || good_scores[s].score < worst_good_score)
                    return;
                cidx_t const s_j    = good_scores[s].idx;
                cidx_t const back_j = good_scores.back().idx;
                std::swap(score_info.score_map[s_j], score_info.score_map[back_j]);
                std::swap(good_scores[s], good_scores.back());
                good_scores = make_span(good_scores.begin(), good_scores.end() - 1U);"""))
r("rd_init_else", (RD, """    for (cidx_t j : sol)
        if (red_data.total_cover.is_redundant_uncover(inst.cols[j]))
            red_data.redund_set.push_back({j, inst.costs[j]});
        else {
            red_data.partial_cov_count += as_ridx(red_data.partial_cover.cover(inst.cols[j]));
            red_data.partial_cost += inst.costs[j];
            if (red_data.partial_cost >= cutoff_cost)
                return;
        }""", """    for (cidx_t j : sol) {
        auto const col = inst.cols[j];
        if (red_data.total_cover.is_redundant_uncover(col)) {
            red_data.redund_set.push_back({j, inst.costs[j]});
            continue;
        }
        red_data.partial_cost += inst.costs[j];
        red_data.partial_cov_count += as_ridx(red_data.partial_cover.cover(col));
        if (red_data.partial_cost >= cutoff_cost)
            return;
    }"""))
r("rd_init_reorder", (RD, """    red_data.redund_set.clear();
    red_data.partial_cover.reset(rsize(inst.rows));
    red_data.partial_cov_count = 0_R;
    red_data.cols_to_remove.clear();
    red_data.best_cost    = cutoff_cost;
    red_data.partial_cost = 0.0_F;
""", """    red_data.best_cost         = cutoff_cost;
    red_data.partial_cost      = 0.0_F;
    red_data.partial_cov_count = 0_R;
    red_data.redund_set.clear();
    red_data.cols_to_remove.clear();
    red_data.partial_cover.reset(rsize(inst.rows));
"""))
r("rd_heur_helper_lambda", (RD, """        remove_if(red_set.redund_set, [&](CidxAndCost x) {
            if (red_set.total_cover.is_redundant_uncover(inst.cols[x.idx]))
                return false;
            red_set.partial_cost += inst.costs[x.idx];
            red_set.partial_cov_count += as_ridx(red_set.partial_cover.cover(inst.cols[x.idx]));
            return true;
        });""", """        remove_if(red_set.redund_set, [&](CidxAndCost x) {
            auto const col       = inst.cols[x.idx];
            bool const mandatory = !red_set.total_cover.is_redundant_uncover(col);
            if (mandatory) {
                red_set.partial_cov_count += as_ridx(red_set.partial_cover.cover(col));
                red_set.partial_cost += inst.costs[x.idx];
            }
            return mandatory;
        });"""))
r("rd_heur_break", (RD, """        if (red_set.partial_cov_count == rsize(inst.rows))
            return;

        cidx_t j""", """        if (red_set.partial_cov_count == rsize(inst.rows))
            break;

        cidx_t j"""))
r("rd_heur_order", (RD, """        cidx_t j = red_set.redund_set.back().idx;
        red_set.redund_set.pop_back();
        red_set.total_cover.uncover(inst.cols[j]);
        red_set.cols_to_remove.push_back(j);
""", """        cidx_t const j = red_set.redund_set.back().idx;
        red_set.cols_to_remove.push_back(j);
        red_set.total_cover.uncover(inst.cols[j]);
        red_set.redund_set.pop_back();
"""))
r("rd_enum_final", (RD, """    if (red_set.best_cost < old_ub)
        for (cidx_t r = 0_C; r < csize(red_set.redund_set); ++r)
            if (!cols_to_keep[r])
                red_set.cols_to_remove.push_back(red_set.redund_set[r].idx);""", """    if (red_set.best_cost >= old_ub)
        return;
    for (size_t r = 0; r < red_set.redund_set.size(); ++r) {
        if (cols_to_keep[r])
            continue;
        red_set.cols_to_remove.push_back(red_set.redund_set[r].idx);
    }"""))
r("rd_enum_invoke_vars", (RD, """            if (red_data.partial_cost + red_data.redund_set[Depth].cost < red_data.best_cost &&
                !partial_cover.is_redundant_cover(col)) {

                vars[Depth] = true;
                red_data.partial_cov_count += as_ridx(partial_cover.cover(col));
                red_data.partial_cost += red_data.redund_set[Depth].cost;

                Enumerator<Depth + 1>::invoke(inst, red_data, vars, sol);

                vars[Depth] = false;
                red_data.partial_cov_count -= as_ridx(partial_cover.uncover(col));
                red_data.partial_cost -= red_data.redund_set[Depth].cost;
            }""", """            real_t const col_cost = red_data.redund_set[Depth].cost;
            bool const   useful   = !partial_cover.is_redundant_cover(col);
            if (useful && red_data.partial_cost + col_cost < red_data.best_cost) {

                red_data.partial_cost += col_cost;
                red_data.partial_cov_count += as_ridx(partial_cover.cover(col));
                vars[Depth] = true;

                Enumerator<Depth + 1>::invoke(inst, red_data, vars, sol);

                red_data.partial_cost -= red_data.redund_set[Depth].cost;
                red_data.partial_cov_count -= as_ridx(partial_cover.uncover(col));
                vars[Depth] = false;
            }"""))
r("sc_compute_score_ternary", (SC, """        if (mu == 0_R)
            return limits<real_t>::max();
        if (gamma > 0.0_F)
            return gamma / as_real(mu);
        return gamma * as_real(mu);""", """        if (mu == 0_R)
            return limits<real_t>::max();
        real_t const mu_real = as_real(mu);
        return gamma <= 0.0_F ? gamma * mu_real : gamma / mu_real;"""))
r("sc_row_scores_ref", (SC, """            score_info.covered_rows[j] -= 1_R;
            score_info.gammas[j] += i_lagr_mult;

            cidx_t s = score_info.score_map[j];
            assert(s != removed_cidx && "Column is not in the score map");
            scores[s].score = local::compute_score(score_info.gammas[j],
                                                   score_info.covered_rows[j]);""", """            real_t& gamma = score_info.gammas[j];
            ridx_t& mu    = score_info.covered_rows[j];
            gamma += i_lagr_mult;
            --mu;

            cidx_t s        = score_info.score_map[j];
            scores[s].score = local::compute_score(gamma, mu);"""))
r("sc_init_assign", (SC, """    for (cidx_t j = 0_C; j < csize(inst.cols); ++j) {
        ridx_t cover_num           = rsize(inst.cols[j]);
        real_t score               = local::compute_score(score_info.gammas[j], cover_num);
        score_info.score_map[j]    = j;
        score_info.covered_rows[j] = cover_num;
        score_info.scores.push_back({score, j});""", """    score_info.scores.reserve(ncols);
    for (cidx_t j = 0_C; j < ncols; ++j) {
        score_info.covered_rows[j] = rsize(inst.cols[j]);
        score_info.score_map[j]    = j;
        real_t const score = local::compute_score(score_info.gammas[j], score_info.covered_rows[j]);
        score_info.scores.push_back(ScoreData{score, j});"""))
r("sc_update_covered_continue", (SC, """    for (ridx_t i = 0_R; i < rsize(row_coverage); i++)
        if (row_coverage[i] > 0)
            local::update_row_scores(inst.rows[i], lagr_mult[i], score_info, NoOp{});
""", """    ridx_t const nrows = rsize(row_coverage);
    for (ridx_t i = 0_R; i < nrows; ++i) {
        if (row_coverage[i] == 0)
            continue;
        local::update_row_scores(inst.rows[i], lagr_mult[i], score_info, NoOp{});
    }
"""))
r("sc_changed_direct", (SC, """    auto col_star = inst.cols[jstar];
    for (ridx_t i : col_star)
        if (row_coverage[i] == 0)
            local""", """    for (ridx_t i : inst.cols[jstar])
        if (!(row_coverage[i] > 0))
            local"""))
r("sc_select_var", (SC, """    how_many = std::min(how_many, csize(scores));
    cft::nth_element(scores, how_many - 1_C, ScoreKey{});
    for (cidx_t s = 0_C; s < csize(scores); ++s)
        score_info.score_map[scores[s].idx] = s;

    return make_span(scores.begin(), how_many);""", """    cidx_t const nscores = csize(scores);
    cidx_t const nbest   = how_many < nscores ? how_many : nscores;
    cft::nth_element(scores, nbest - 1_C, ScoreKey{});
    for (cidx_t s = 0_C; s < nscores; ++s) {
        cidx_t const j          = scores[s].idx;
        score_info.score_map[j] = s;
    }

    return make_span(scores.begin(), scores.begin() + nbest);"""))
# ------------------------------------------------------------------ Instance & core utils
r("in_fill_resize", (IN, """    rows.resize(nrows);
    for (auto& row : rows) {
        row.clear();
        row.reserve(cft::size(cols.idxs) / checked_cast<size_t>(nrows));
    }
""", """    rows.assign(nrows, std::vector<cidx_t>());
"""))
r("in_fill_clear_resize", (IN, """    rows.resize(nrows);
    for (auto& row : rows) {
        row.clear();
        row.reserve(cft::size(cols.idxs) / checked_cast<size_t>(nrows));
    }
""", """    rows.clear();
    rows.resize(nrows);
"""))
r("in_fill_col_var", (IN, """    for (cidx_t j = 0_C; j < csize(cols); ++j)
        for (ridx_t i : cols[j])
            rows[i].push_back(j);""", """    cidx_t const ncols = csize(cols);
    for (cidx_t j = 0_C; j < ncols; ++j) {
        auto const col = cols[j];
        for (size_t n = 0; n < col.size(); ++n)
            rows[col[n]].push_back(j);
    }"""))
r("in_push_reorder", (IN, """    dest_inst.cols.push_back(src_inst.cols[j]);
    dest_inst.costs.push_back(src_inst.costs[j]);""", """    dest_inst.costs.push_back(src_inst.costs[j]);
    auto const col = src_inst.cols[j];
    dest_inst.cols.push_back(col);"""))
r("cu_local_acc", (CU, """        reduced_costs[j] = inst.costs[j];
        for (ridx_t i : inst.cols[j])
            reduced_costs[j] -= multipliers[i];
        hook(reduced_costs[j], j);""", """        real_t red_cost = inst.costs[j];
        for (ridx_t i : inst.cols[j])
            red_cost -= multipliers[i];
        reduced_costs[j] = red_cost;
        hook(red_cost, j);"""))
r("cu_pushback", (CU, """    reduced_costs.resize(ncols);
    for (cidx_t j = 0_C; j < ncols; ++j) {

        reduced_costs[j] = inst.costs[j];
        for (ridx_t i : inst.cols[j])
            reduced_costs[j] -= multipliers[i];
        hook(reduced_costs[j], j);
    }""", """    reduced_costs.assign(inst.costs.begin(), inst.costs.begin() + ncols);
    for (cidx_t j = 0_C; j < ncols; ++j) {
        auto& red_cost = reduced_costs[j];
        for (ridx_t i : inst.cols[j])
            red_cost = red_cost - multipliers[i];
        hook(red_cost, j);
    }"""))
# ------------------------------------------------------------------ parsing
r("pa_scp_dead_code", (PA, """    for (auto const& col : cols) {
        for (ridx_t i : col)
            inst.cols.idxs.push_back(i);
        inst.cols.begs.push_back(size(inst.cols.idxs));
    }

    inst.cols = SparseBinMat<ridx_t>();
    for (auto& col : cols)""", """    for (auto const& col : cols)"""))
r("pa_scp_helper_next", (PA, """    for (cidx_t j = 0_C; j < num.cols; ++j) {
        if (line_view.empty())
            line_view = file_iter.next();
        inst.costs.push_back(string_to<real_t>::consume(line_view));
    }
""", """    auto refill = [&]() {
        if (line_view.empty())
            line_view = file_iter.next();
    };
    for (cidx_t j = 0_C; j < num.cols; ++j) {
        refill();
        inst.costs.push_back(string_to<real_t>::consume(line_view));
    }
"""), (PA, """        for (cidx_t n = 0_C; n < i_ncols; ++n) {
            if (line_view.empty())
                line_view = file_iter.next();
            cidx_t""", """        for (cidx_t n = 0_C; n < i_ncols; ++n) {
            refill();
            cidx_t"""))
r("pa_scp_template_token", (PA, """        if (line_view.empty())
            line_view = file_iter.next();
        inst.costs.push_back(string_to<real_t>::consume(line_view));
    }
""", """        inst.costs.push_back(local::next_value<real_t>(file_iter, line_view));
    }
"""), (PA, """            if (line_view.empty())
                line_view = file_iter.next();
            cidx_t cidx = string_to<cidx_t>::consume(line_view);
""", """            cidx_t cidx = local::next_value<cidx_t>(file_iter, line_view);
"""), (PA, """#ifndef NDEBUG
    inline void mps_epi""", """    template <typename T>
    T next_value(FileLineIterator& file_iter, StringView& line_view) {
        if (line_view.empty())
            line_view = file_iter.next();
        return string_to<T>::consume(line_view);
    }

#ifndef NDEBUG
    inline void mps_epi"""))
r("pa_scp_range", (PA, """            if (cidx <= 0_C || num.cols < cidx)
                throw""", """            bool const in_range = 1_C <= cidx && cidx <= num.cols;
            if (!in_range)
                throw"""))
r("pa_rail_local_idx", (PA, """            inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                throw std::invalid_argument("Invalid file format: not a RAIL instance?");""", """            ridx_t const i = string_to<ridx_t>::parse(tokens[n]) - 1_R;
            if (i < 0_R || i >= num.rows)
                throw std::invalid_argument("Invalid file format: not a RAIL instance?");
            inst.cols.idxs.push_back(i);"""))
r("pa_rail_tokens_range", (PA, """        for (ridx_t n = 0_R; n < j_nrows; n++) {
            inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
""", """        for (auto const& token : tokens) {
            inst.cols.idxs.push_back(string_to<ridx_t>::parse(token) - 1_R);
"""))
r("pa_check_row_helper", (PA, """#ifndef NDEBUG
    inline void mps_epi""", """    inline void check_row_index(ridx_t i, ridx_t nrows, char const* msg) {
        if (i < 0_R || i >= nrows)
            throw std::invalid_argument(msg);
    }

#ifndef NDEBUG
    inline void mps_epi"""), (PA, """            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                throw std::invalid_argument("Invalid file format: not a RAIL instance?");""", """            local::check_row_index(inst.cols.idxs.back(), num.rows, "Invalid file format: not a RAIL instance?");"""),
  (PA, """            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                throw std::invalid_argument("Invalid file format: not a CVRP instance?");""", """            local::check_row_index(fdata.inst.cols.idxs.back(), num.rows, "Invalid file format: not a CVRP instance?");"""))
r("pa_cvrp_local_cost", (PA, """        fdata.inst.costs.push_back(string_to<real_t>::consume(line_view));

        real_t solcost = string_to<real_t>::consume(line_view);
        if (solcost < fdata.inst.costs.back())
            throw""", """        real_t const cost    = string_to<real_t>::consume(line_view);
        real_t const solcost = string_to<real_t>::consume(line_view);
        fdata.inst.costs.push_back(cost);
        if (solcost < cost)
            throw"""))
r("pa_mps_token_helper", (PA, """        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
            rows_map[tokens[1].to_cpp_string()] = nrows++;
        line_view = file_iter.next();""", """        bool const is_row = !tokens.empty() && (tokens[0] == "L" || tokens[0] == "G" || tokens[0] == "E");
        if (is_row)
            rows_map[tokens[1].to_cpp_string()] = nrows++;
        line_view = file_iter.next();"""))
r("pa_mps_header_loop", (PA, """    size_t down_counter = 10;
    while (line_view != "ROWS" && down_counter-- > 0)
        line_view = file_iter.next();
""", """    for (size_t n = 0; n < 10 && line_view != "ROWS"; ++n)
        line_view = file_iter.next();
"""))
r("pa_sol_while", (PA, """    sol.cost = string_to<real_t>::consume(line_view);
    while (!line_view.empty())
        sol.idxs.push_back(string_to<cidx_t>::consume(line_view));

    return sol;""", """    sol.cost = string_to<real_t>::consume(line_view);
    for (; !line_view.empty();) {
        cidx_t const j = string_to<cidx_t>::consume(line_view);
        sol.idxs.push_back(j);
    }

    return sol;"""))
r("pa_write_index", (PA, """    for (cidx_t j : sol.idxs)
        fmt::print(file, " {}", j);
    file.close();""", """    for (size_t n = 0; n < sol.idxs.size(); ++n)
        fmt::print(file, " {}", sol.idxs[n]);
    file.close();"""))
r("pa_init_loop_any", (PA, """    if (any(fdata.inst.rows, [](std::vector<cidx_t> const& row) { return row.empty(); }))
        throw std::invalid_argument("Infeasible instance: a row is not covered by any column.");
""", """    for (auto const& row : fdata.inst.rows)
        if (row.empty())
            throw std::invalid_argument("Infeasible instance: a row is not covered by any column.");
"""))
r("pa_init_unit_loop", (PA, """    if (env.use_unit_costs)
        fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
""", """    if (env.use_unit_costs)
        for (real_t& cost : fdata.inst.costs)
            cost = 1.0_F;
"""))
r("pa_init_parse_inst_helper", (PA, """inline FileData parse_inst_and_initsol(Environment const& env) {
    auto fdata = FileData();

    if""", """namespace local { namespace {
    inline FileData parse_inst(Environment const& env) {
    auto fdata = FileData();

    if"""), (PA, """        throw std::runtime_error("Parser does not exists.");
    }

    if (!env.initsol""", """        throw std::runtime_error("Parser does not exists.");
    }
    return fdata;
    }
}  // namespace
}  // namespace local

inline FileData parse_inst_and_initsol(Environment const& env) {
    auto fdata = local::parse_inst(env);

    if (!env.initsol"""))
r("pa_nrows_order", (PA, """        if (num.rows <= 0_R || num.cols <= 0_C)
            throw std::invalid_argument("Invalid file format: no rows or columns.");
        return num;""", """        if (num.rows < 1_R)
            throw std::invalid_argument("Invalid file format: no rows.");
        if (num.cols < 1_C)
            throw std::invalid_argument("Invalid file format: no columns.");
        return num;"""))
r("pa_check_price_reorder", (PA, """            if (j < 0_C || csize(inst.cols) <= j)
                throw std::invalid_argument("Invalid column index in the initial solution.");
            sol.cost += inst.costs[j];
            for (ridx_t i : inst.cols[j])
                in_col[i] = true;
        }
        if (!all(in_col, [](bool covered) { return covered; }))
            throw""", """            if (j < 0_C || j >= csize(inst.cols))
                throw std::invalid_argument("Invalid column index in the initial solution.");
            for (ridx_t i : inst.cols[j])
                in_col[i] = true;
            sol.cost += inst.costs[j];
        }
        if (any(in_col, [](bool covered) { return !covered; }))
            throw"""))
r("pu_split_loop", (PU, """    auto trimmed = trim(str);
    auto elems   = std::vector<StringView>{};
    while (!trimmed.empty()) {
        size_t elem_end = trimmed.find_first_true(IsSpace{});
        elems.push_back(trimmed.get_substr(0, elem_end));
        trimmed = ltrim(trimmed.remove_prefix(elem_end));
    }
    return elems;""", """    auto elems = std::vector<StringView>{};
    for (auto rest = trim(str); !rest.empty();) {
        size_t const len = rest.find_first_true(IsSpace{});
        elems.emplace_back(rest.get_substr(0, len));
        rest = ltrim(rest.remove_prefix(len));
    }
    return elems;"""))
r("pu_rtrim_invert", (PU, """    if (str.empty())
        return str;
    size_t suffix = str.find_last_true(NotSpace{});
    return str.remove_suffix(suffix + 1);""", """    if (!str.empty()) {
        size_t const last = str.find_last_true(NotSpace{});
        return str.remove_suffix(last + 1);
    }
    return str;"""))
r("pu_next_if", (PU, """        if (!std::getline(in, line))
            line.clear();  // Past the end, do not return the last line again
        return trim(StringView(line));""", """        bool const ok = static_cast<bool>(std::getline(in, line));
        if (!ok)
            line.clear();
        auto view = StringView(line);
        return trim(view);"""))
r("pu_consume_order", (PU, """        if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
            throw std::out_of_range(
                fmt::format("Out of range parsing {} (as {})", str.data(), typeid(T).name()));

        if (end == str.data())
            throw std::invalid_argument(
                fmt::format("Invalid argument parsing {} (as {})", str.data(), typeid(T).name()));
""", """        if (end == str.data())
            throw std::invalid_argument(
                fmt::format("Invalid argument parsing {} (as {})", str.data(), typeid(T).name()));

        bool const fits = limits<val_t>::min() <= val && val <= limits<val_t>::max();
        if (oo_range || !fits)
            throw std::out_of_range(
                fmt::format("Out of range parsing {} (as {})", str.data(), typeid(T).name()));
"""))
r("cl_chain_reorder", (CL, """        else if (CFT_FLAG_MATCH(arg, BETA))
            env.beta = string_to<real_t>::parse(args[++a]);
        else if (CFT_FLAG_MATCH(arg, ABSSGEXIT))
            env.abs_subgrad_exit = string_to<real_t>::parse(args[++a]);""", """        else if (CFT_FLAG_MATCH(arg, ABSSGEXIT))
            env.abs_subgrad_exit = string_to<real_t>::parse(args[++a]);
        else if (CFT_FLAG_MATCH(arg, BETA))
            env.beta = string_to<real_t>::parse(args[++a]);"""))
r("cl_seed_split", (CL, """            env.rnd = prng_t(env.seed = string_to<uint64_t>::parse(args[++a]));""", """        {
            env.seed = string_to<uint64_t>::parse(args[++a]);
            env.rnd  = prng_t(env.seed);
        }"""))
r("cl_argv_direct", (CL, """    auto args = cft::make_span(argv, checked_cast<size_t>(argc));
    auto env  = Environment{};

    auto asize = size(args);
""", """    auto const asize = checked_cast<size_t>(argc);
    auto const args  = argv;
    auto       env   = Environment{};

"""))
r("cl_value_helper", (CL, """            env.time_limit = string_to<double>::parse(args[++a]);""", """            env.time_limit = local::parse_value<double>(args[++a]);"""), (CL, """            env.beta = string_to<real_t>::parse(args[++a]);""", """            env.beta = local::parse_value<real_t>(args[++a]);"""),
  (CL, """namespace local { namespace {
    inline std::string make""", """namespace local { namespace {
    template <typename T>
    T parse_value(char const* arg) {
        return string_to<T>::parse(arg);
    }

    inline std::string make"""))
r("cl_solname_ternary", (CL, """        if (slash_pos != out_name.size())
            out_name = out_name.get_substr(slash_pos + 1, out_name.size());
""", """        size_t const name_size = out_name.size();
        if (!(slash_pos == name_size))
            out_name = out_name.remove_prefix(slash_pos + 1);
"""))
r("main_locals", (MA, """        auto fdata = cft::parse_inst_and_initsol(env);
        auto res   = cft::run(env, fdata.inst, fdata.init_sol);
        cft::write_solution(env.sol_path, res.sol);""", """        auto const fdata = cft::parse_inst_and_initsol(env);
        auto const res   = cft::run(env, fdata.inst, fdata.init_sol);
        auto const& sol  = res.sol;
        cft::write_solution(env.sol_path, sol);"""))
r("main_solve_helper", (MA, """int main(""", """static void solve(int argc, char const** argv) {
    auto env = cft::parse_cli_args(argc, argv);
    cft::print<1>(env, "CFT implementation by Luca Accorsi and Francesco Cavaliere.\\n");
    cft::print<2>(env, "Compiled on " __DATE__ " at " __TIME__ ".\\n\\n");
    cft::print<3>(env, "Running with parameters set to:\\n");
    cft::print_arg_values(env);
    auto fdata = cft::parse_inst_and_initsol(env);
    auto res   = cft::run(env, fdata.inst, fdata.init_sol);
    cft::write_solution(env.sol_path, res.sol);
    cft::print<1>(env, "CFT> Best solution {:.2f} time {:.2f}s\\n", res.sol.cost, env.timer.elapsed<cft::sec>());
}

int main("""), (MA, """        auto env = cft::parse_cli_args(argc, argv);

        cft::print<1>(env, "CFT implementation by Luca Accorsi and Francesco Cavaliere.\\n");
        cft::print<2>(env, "Compiled on " __DATE__ " at " __TIME__ ".\\n\\n");
        cft::print<3>(env, "Running with parameters set to:\\n");
        cft::print_arg_values(env);

        auto fdata = cft::parse_inst_and_initsol(env);
        auto res   = cft::run(env, fdata.inst, fdata.init_sol);
        cft::write_solution(env.sol_path, res.sol);
        cft::print<1>(env,
                      "CFT> Best solution {:.2f} time {:.2f}s\\n",
                      res.sol.cost,
                      env.timer.elapsed<cft::sec>());
""", """        solve(argc, argv);
"""))
# ------------------------------------------------------------------ utilities
r("cc_cover_if", (CC, """            covered += cov_counters[i] == 0 ? 1ULL : 0ULL;
            ++cov_counters[i];""", """            if (cov_counters[i] == 0)
                ++covered;
            cov_counters[i] += 1;"""))
r("cc_cover_post", (CC, """            covered += cov_counters[i] == 0 ? 1ULL : 0ULL;
            ++cov_counters[i];""", """            if (cov_counters[i]++ == 0)
                covered++;"""))
r("cc_uncover_if", (CC, """            --cov_counters[i];
            uncovered += cov_counters[i] == 0 ? 1ULL : 0ULL;""", """            cov_counters[i] -= 1U;
            if (cov_counters[i] == 0)
                ++uncovered;"""))
r("cc_redundant_any", (CC, """            if (cov_counters[i] <= 1)
                return false;
        }
        return true;""", """            if (!(cov_counters[i] > 1))
                return false;
        }
        return true;"""))
r("cc_redundant_flag", (CC, """            if (cov_counters[i] == 0)
                return false;
        }
        return true;""", """            redundant = redundant && cov_counters[i] != 0;
        }
        return redundant;"""), (CC, """    bool is_redundant_cover(IterableT const& subset) const {
""", """    bool is_redundant_cover(IterableT const& subset) const {
        bool redundant = true;
"""))
r("cc_reset_clear", (CC, """        cov_counters.assign(nelems, 0);
    }

    template""", """        cov_counters.clear();
        cov_counters.resize(nelems, 0);
    }

    template"""))
r("cc_cover_iter", (CC, """        size_t covered = 0;
        for (auto i : subset) {""", """        size_t covered = 0;
        for (auto it = subset.begin(); it != subset.end(); ++it) {
            auto i = *it;"""))
r("sa_try_insert_else", (SA, """        if (sz >= Nm) {
            if (key(elem) >= key(back()))
                return false;
            --sz;  // pop_back
        }
        insert(std::forward<U>(elem));
        return true;""", """        bool const full = sz >= Nm;
        if (full && key(elem) >= key(back()))
            return false;
        if (full)
            --sz;  // pop_back
        insert(std::forward<U>(elem));
        return true;"""))
r("sa_insert_for", (SA, """        size_type i = sz;
        while (i > 0 && key(elem) < key(data[i - 1])) {
            data[i] = std::move(data[i - 1]);
            --i;
        }""", """        size_type i = sz;
        for (; i > 0 && key(elem) < key(data[i - 1]); --i)
            data[i] = std::move(data[i - 1]);"""))
r("sv_first_range", (SV, """        for (size_t i = 0; i < size(); ++i)
            if (cond((*this)[i]))
                return i;
        return size();
    }""", """        size_t const sz = size();
        size_t       i  = 0;
        while (i < sz && !cond(start[i]))
            ++i;
        return i;
    }"""))
r("sv_last_down", (SV, """        if (empty())
            return size();
        for (size_t i = size() - 1; i > 0; --i)
            if (cond((*this)[i]))
                return i;
        if (cond((*this)[0]))
            return 0;
        return size();""", """        for (size_t i = size(); i-- > 0;)
            if (cond((*this)[i]))
                return i;
        return size();"""))
r("sv_compare_vars", (SV, """        size_t min_size = cft::min(size(), other.size());
        for (size_t n = 0; n < min_size; ++n) {
            if ((*this)[n] < other[n])
                return -1;
            if ((*this)[n] > other[n])
                return 1;
        }
        return size() < other.size() ? -1 : (size() > other.size() ? 1 : 0);""", """        size_t const min_size = cft::min(size(), other.size());
        for (size_t n = 0; n < min_size; ++n) {
            char const a = start[n];
            char const b = other.start[n];
            if (a != b)
                return a < b ? -1 : 1;
        }
        if (size() == other.size())
            return 0;
        return size() < other.size() ? -1 : 1;"""))
r("sv_ops_derived", (SV, """    bool operator!=(StringView rhs) const {
        return compare(rhs) != 0;
    }""", """    bool operator!=(StringView rhs) const {
        return !(*this == rhs);
    }"""), (SV, """    bool operator>=(StringView rhs) const {
        return compare(rhs) >= 0;""", """    bool operator>=(StringView rhs) const {
        return !(*this < rhs);"""))
r("ut_any_loop", (UT, """    for (auto const& e : container)
        if (op(e))
            return true;
    return false;""", """    bool found = false;
    for (auto const& e : container)
        if (op(e)) {
            found = true;
            break;
        }
    return found;"""))
r("ut_all_not_any", (UT, """    for (auto const& e : container)
        if (!op(e))
            return false;
    return true;""", """    using elem_t = container_value_type_t<T const>;
    return !any(container, [&](elem_t const& e) { return !op(e); });"""))
r("ut_range_min_range", (UT, """    auto min_elem = container[0];
    for (size_t i = 1ULL; i < cft::size(container); ++i)
        if (key(container[i]) < key(min_elem))
            min_elem = container[i];
    return min_elem;""", """    size_t const csz      = cft::size(container);
    auto         min_elem = container[0];
    for (size_t i = 1ULL; i < csz; ++i) {
        auto const& elem = container[i];
        if (key(elem) < key(min_elem))
            min_elem = elem;
    }
    return min_elem;"""))
r("ut_remove_if_rangefor", (UT, """    size_t w = 0;
    for (size_t i = 0ULL; i < cft::size(container); ++i)
        if (!op(container[i]))
            container[w++] = container[i];
    container.resize(w);""", """    size_t       w   = 0;
    size_t const csz = cft::size(container);
    for (size_t i = 0ULL; i < csz; ++i) {
        if (op(container[i]))
            continue;
        container[w] = container[i];
        ++w;
    }
    container.resize(w);"""))
r("ut_clamp_if", (UT, """    return (v < lb) ? static_cast<T>(lb) : (v > ub) ? static_cast<T>(ub) : v;""", """    if (v < lb)
        return static_cast<T>(lb);
    if (v > ub)
        return static_cast<T>(ub);
    return v;"""))
r("ut_abs_if", (UT, """    return val < T{} ? -val : val;""", """    if (val < T{})
        return -val;
    return val;"""))
r("so_named_cmp", (SO, """    std::sort(container.begin(), container.end(), [key](value_type const& a, value_type const& b) {
        return key(a) < key(b);
    });""", """    auto less = [key](value_type const& a, value_type const& b) { return key(a) < key(b); };
    std::sort(container.begin(), container.end(), less);"""))
r("so_greater_flip", (SO, """    std::sort(container.begin(), container.end(), [key](value_type const& a, value_type const& b) {
        return key(a) < key(b);
    });""", """    std::sort(container.begin(), container.end(), [key](value_type const& a, value_type const& b) {
        return key(b) > key(a);
    });"""))
r("rn_real_var", (RN, """    return min + (max - min) * canonical_gen<FlT>(rnd);""", """    FlT const unit  = canonical_gen<FlT>(rnd);
    FlT const width = max - min;
    return min + unit * width;"""))
r("rn_dice_var", (RN, """    IntT result = min + checked_cast<IntT>(rnd() % checked_cast<gen_type>(max - min + IntT{1}));""", """    gen_type const nvalues = checked_cast<gen_type>(max - min + IntT{1});
    gen_type const offset  = rnd() % nvalues;
    IntT result = checked_cast<IntT>(offset) + min;"""))
r("rn_coin_var", (RN, """    return canonical_gen<double>(rnd) < true_prob;""", """    double const draw = canonical_gen<double>(rnd);
    return !(draw >= true_prob);"""))
r("xo_loop_index", (XO, """            for (result_type& seed : state) {
                uint64_t z = (init_seed += 0x9e3779b97f4a7c15);
                z          = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9;
                z          = (z ^ (z >> 27U)) * 0x94d049bb133111eb;
                seed       = static_cast<result_type>(z ^ (z >> 31U));
            }""", """            for (size_t n = 0; n < 4; ++n) {
                init_seed += 0x9e3779b97f4a7c15;
                uint64_t z = init_seed;
                z          = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9;
                z          = (z ^ (z >> 27U)) * 0x94d049bb133111eb;
                state[n]   = static_cast<result_type>(z ^ (z >> 31U));
            }"""))
r("xo_splitmix_helper", (XO, """            for (result_type& seed : state) {
                uint64_t z = (init_seed += 0x9e3779b97f4a7c15);
                z          = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9;
                z          = (z ^ (z >> 27U)) * 0x94d049bb133111eb;
                seed       = static_cast<result_type>(z ^ (z >> 31U));
            }""", """            for (result_type& seed : state)
                seed = static_cast<result_type>(local::split_mix(init_seed));"""), (XO, """        template <uint64_t Shift""", """        inline uint64_t split_mix(uint64_t& s) {
            uint64_t z = (s += 0x9e3779b97f4a7c15);
            z          = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9;
            z          = (z ^ (z >> 27U)) * 0x94d049bb133111eb;
            return z ^ (z >> 31U);
        }

        template <uint64_t Shift"""))
r("xo_next_result_last", (XO, """            result_type result = state[0] + state[3];
            local::next_state<9U, 11U>(state);
            return result;""", """            result_type const result = state[3] + state[0];
            local::next_state<9U, 11U>(state);
            return result;"""))
r("ch_restart_now", (CH, """        auto old = start;
        start    = high_res_clock::now();
        return std::chrono::duration_cast<UnitT>(start - old).count();""", """        auto const now  = high_res_clock::now();
        auto const diff = now - start;
        start           = now;
        return std::chrono::duration_cast<UnitT>(diff).count();"""))
r("ch_elapsed_inline", (CH, """        auto now = high_res_clock::now();
        return std::chrono::duration_cast<UnitT>(now - start).count();""", """        return std::chrono::duration_cast<UnitT>(high_res_clock::now() - start).count();"""))
r("sp_back_index", (SP, """        return *(finish - 1);""", """        return start[size() - 1];"""))
r("sp_size_distance", (SP, """        return checked_cast<size_t>(finish - start);""", """        return checked_cast<size_t>(std::distance(start, finish));"""))
r("mt_push_loop", (MT, """    template <typename T>
    void push_back(T const& elem) {
        idxs.insert(idxs.end(), elem.begin(), elem.end());
        begs.push_back(idxs.size());""", """    template <typename T>
    void push_back(T const& elem) {
        for (auto const& e : elem)
            idxs.push_back(e);
        begs.push_back(idxs.size());"""))
r("mt_clear_assign", (MT, """        idxs.clear();
        begs.clear();
        begs.push_back(0);""", """        idxs.clear();
        begs.assign(1, 0);"""))
r("mt_bracket_data", (MT, """        return make_span(idxs.data() + begs[i], idxs.data() + begs[i + 1]);
    }

    Span<IdxT const*> op""", """        IdxT* const data = idxs.data();
        return make_span(data + begs[i], data + begs[i + 1]);
    }

    Span<IdxT const*> op"""))
r("pt_level_flip", (PT, """    if (env.verbose >= Level)
        fmt::print""", """    if (Level <= env.verbose)
        fmt::print"""))
r("pt_level_return", (PT, """    if (env.verbose >= Level)
        fmt::print(fmt, std::forward<T>(args)...);""", """    if (env.verbose < Level)
        return;
    fmt::print(fmt, std::forward<T>(args)...);"""))
