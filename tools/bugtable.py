# bug(id, property, [(file, old, new)...], demo, needs, breaks, kind)
bug("p01_c1_marks_before_truncation", "P12", [("subgradient/Pricer.hpp",
"""        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
        if (csize(idxs) > maxsize) {
            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
            idxs.resize(maxsize);
        }
        for (cidx_t j : idxs)
            taken_idxs[j] = true;
""",
"""        for (cidx_t j : idxs)
            taken_idxs[j] = true;
        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
        if (csize(idxs) > maxsize) {
            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
            idxs.resize(maxsize);
        }
""")], r"""
    // 30 cheap columns on row 0 only, 3 dearer (still below 0.1) columns on row 1
    std::vector<std::vector<int>> cols; std::vector<double> costs;
    for (int k = 0; k < 30; ++k) { cols.push_back({0}); costs.push_back(1); }
    for (int k = 0; k < 3; ++k) { cols.push_back({1}); costs.push_back(1.5); }
    Instance inst = make(cols, costs, 2);
    Pricer p; InstAndMap core;
    p(inst, {2.0F, 1.5F}, core);
    REQ(!core.inst.rows[0].empty());
    REQ(core.inst.rows[1].size() == 3);
""", "More than five columns per row with a reduced cost below 0.1, so that the first selection is truncated.",
"Columns dropped by the truncation stay marked as taken, so the per-row selection no longer adds them back and a row can lose all its columns in the core.")

bug("p11_row_map_composition", "P11", [("fixing/FixingData.hpp", "fixing.curr2orig.row_map[new_i] = fixing.curr2orig.row_map[old_i];", "fixing.curr2orig.row_map[new_i] = old_i;")], r"""
    Instance inst = make({{0}, {1}, {2}, {3}, {2, 3}}, {1, 2, 3, 4, 5}, 4);
    FixingData f; IdxsMaps m;
    make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), f);
    fix_columns_and_compute_maps({0}, inst, f, m);
    fix_columns_and_compute_maps({0}, inst, f, m);
    REQ((f.curr2orig.row_map == std::vector<ridx_t>{2, 3}));
""", "A second fixing after the first one removed a row.", "The map of rows back to the original instance is not composed with the earlier one.")

bug("p04_warm_start_too_long", "P04", [("algorithms/Refinement.hpp", "    if (!warmstart_sol.idxs.empty())", "    if (!warmstart_sol.idxs.empty() && csize(warmstart_sol.idxs) < as_cidx(nrows))")], r"""
    for (int s = 0; s < 400; ++s) {
        Instance inst = random_inst(s, 4, 9, 30, 45);
        // cheapest single choice per row, as a warm start with one column per row
        Solution w; w.cost = 0;
        std::vector<std::vector<int>> cols; std::vector<double> costs;
        for (size_t j = 0; j < inst.cols.size(); ++j) { cols.emplace_back(inst.cols[j].begin(), inst.cols[j].end()); costs.push_back(inst.costs[j] + 10); }
        for (int i = 0; i < 4; ++i) { w.idxs.push_back(cols.size()); cols.push_back({i}); costs.push_back(3 + (s * 7 + i * 5) % 9); w.cost += costs.back(); }
        inst = make(cols, costs, 4);
        Environment env = quiet(); env.time_limit = -1;
        CftResult r = run(env, inst, w);
        REQ(r.sol.cost <= w.cost);
    }
""", "A warm start with as many columns as rows, and a time limit that stops the search before it finds as good a cover.", "The warm start is ignored, so a worse solution than it is returned.")

bug("p05_lb_from_fixed_instance", "P05", [("algorithms/ThreePhase.hpp", "            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon ||\n", "            nofix_dual.lb = max(nofix_dual.lb, real_lb + fixing.fixed_cost);\n            if (real_lb + fixing.fixed_cost >= best_sol.cost - env.epsilon ||\n")], r"""
    for (int s = 0; s < 300; ++s) {
        Instance inst = random_inst(s, 14, 40, 100, 18);
        double opt = optimum(inst);
        Environment env = quiet();
        ThreePhase tp; Instance copy = inst;
        CftResult r = tp(env, copy);
        if (r.dual.lb > opt + 0.05) { REQ(r.dual.lb <= opt + 0.05); break; }
    }
""", "A later three-phase iteration, after columns were fixed, whose bound exceeds the first one.", "The bound returned is one of a fixed instance and can exceed the optimum.")

bug("p05_small_negative_ignored", "P05", [("subgradient/Pricer.hpp", "            if (red_cost < 0.0_F)\n                real_lower_bound += red_cost;", "            if (red_cost < -0.001_F)\n                real_lower_bound += red_cost;")], r"""
    std::vector<std::vector<int>> cols(3000, {0}); std::vector<double> costs(3000, 1);
    Instance inst = make(cols, costs, 1);
    Pricer p; InstAndMap core;
    double lb = p(inst, {1.0005F}, core);
    REQ(lb < 0.5);
""", "Many columns with a slightly negative reduced cost.", "The bound leaves out slightly negative reduced costs and is no valid lower bound.")

bug("p06_additive_perturbation", "P06", [("algorithms/ThreePhase.hpp", "            u *= rnd_real(rnd, 0.9_F, 1.1_F);", "            u += rnd_real(rnd, -0.1_F, 0.1_F) * max(u, 1e-3_F);")], r"""
    prng_t rnd(1);
    std::vector<real_t> u(50, 0.0F);
    ThreePhase::_perturb_lagr_multipliers(u, rnd);
    for (real_t x : u) REQ(x >= 0.0F);
""", "A multiplier that is zero when it is perturbed.", "Multipliers can become negative.")

bug("p06_upper_clamp_lost", "P06", [("subgradient/Subgradient.hpp", "            lagr_mult[i] = clamp(old_mult + delta_mult, 0.0_F, 1e6_F);", "            lagr_mult[i] = max(old_mult + delta_mult, 0.0_F);")], r"""
    CoverCounters cc(2);
    std::vector<real_t> u = {1.0F, 2.0F};
    Subgradient::_update_lagr_mult(cc, 1e30F, u);
    for (real_t x : u) REQ(x <= 1e6F);
""", "A huge step, as with a very large gap and a small violation vector.", "Multipliers are no longer bounded.")

bug("p10_multipliers_not_reset", "P10", [("algorithms/ThreePhase.hpp", "        lagr_mult.assign(rsize(inst.rows), limits<real_t>::max());\n        for (ridx_t i = 0_R; i < rsize(inst.rows); ++i)\n            for (cidx_t j : inst.rows[i]) {",
"        lagr_mult.resize(rsize(inst.rows), limits<real_t>::max());\n        for (ridx_t i = 0_R; i < rsize(inst.rows); ++i)\n            for (cidx_t j : inst.rows[i]) {")], r"""
    Instance a = make({{0}, {1}}, {1, 1}, 2), b = make({{0}, {1}}, {5, 5}, 2);
    std::vector<real_t> u;
    ThreePhase::_compute_greedy_multipliers(a, u);
    ThreePhase::_compute_greedy_multipliers(b, u);
    REQ(u[0] == 5 && u[1] == 5);
""", "The same functor used a second time, with dearer columns.", "The multipliers left by the previous call leak into the next one.")

bug("p07_msec", "P07", [("subgradient/Subgradient.hpp", "                if (env.timer.elapsed<sec>() > env.time_limit)\n                    break;\n            }\n        }\n", "                if (timer.elapsed<sec>() > env.time_limit)\n                    break;\n            }\n        }\n")], r"""
    Instance inst = random_inst(3, 200, 600, 50, 4);
    size_t n[2];
    for (int k = 0; k < 2; ++k) {
        Environment env = quiet(); env.verbose = 0; env.time_limit = 50;
        if (k) env.timer.start -= std::chrono::seconds(100);  // the limit has already passed
        Subgradient sg; Pricer p; InstAndMap core;
        ThreePhase::_build_tentative_core_instance(inst, core);
        std::vector<real_t> u;
        ThreePhase::_compute_greedy_multipliers(core.inst, u);
        real_t step = 0.1F;
        auto t = Chrono<>();
        sg(env, inst, 1e4F, p, core, step, u);
        n[k] = t.elapsed();
    }
    REQ(n[1] * 4 < n[0]);
""", "A time limit that passed before the subgradient phase started.", "The phase compares its own running time with the limit, not the time since the caller's start.")

bug("p07_three_phase_own_timer", "P07", [("algorithms/ThreePhase.hpp", "                env.timer.elapsed<sec>() > env.time_limit)\n                break;", "                tot_timer.elapsed<sec>() > env.time_limit)\n                break;")], r"""
    int differ = 0;
    for (int s = 0; s < 30; ++s) {
        Instance inst = random_inst(s, 60, 200, 50, 8);
        Environment env = quiet(); env.time_limit = 50;
        env.timer.start -= std::chrono::seconds(100);
        ThreePhase tp; Instance c = inst;
        auto before = env.rnd;
        tp(env, c);
        differ += std::memcmp(before.state, env.rnd.state, sizeof before.state) != 0;  // the perturbation must not have been reached
    }
    REQ(differ == 0);
""", "A time limit that passed before the three-phase step began.", "The step compares its own running time with the limit.")

bug("p08_fixing_depends_on_clock", "P08", [("algorithms/Refinement.hpp", "            fix_fraction = min(1.0_F, fix_fraction * env.alpha);\n", "            fix_fraction = min(1.0_F, fix_fraction * env.alpha);\n            if (env.timer.elapsed<sec>() > 0.5 * env.time_limit)\n                fix_fraction = min(1.0_F, fix_fraction + 0.3_F);  // Speed up, time is running out\n")], r"""
    Instance inst = random_inst(5, 40, 120, 50, 8);
    DualState d; d.mults.assign(40, 0.5F);
    Solution best; best.cost = 0;
    for (size_t j = 0; j < inst.cols.size(); ++j) { best.idxs.push_back(j); best.cost += inst.costs[j]; }
    std::vector<cidx_t> got[2];
    for (int k = 0; k < 2; ++k) {
        Environment env = quiet(); env.time_limit = 100;
        if (k) env.timer.start -= std::chrono::seconds(60);
        local::RefinementFixManager m;
        m(env, inst, d.mults, best);
        got[k] = m(env, inst, d.mults, best);
    }
    REQ(got[0] == got[1]);
""", "A finite time limit of which more than half has passed without being reached.", "The columns fixed depend on the clock, so equal runs differ.")

bug("p09_reset_only_when_printing", "P09", [("subgradient/Subgradient.hpp", "                best_real_lb = max(best_real_lb, real_lb);\n                _reset_lower_bounds(lb_sol, best_core_lb);", "                best_real_lb = max(best_real_lb, real_lb);\n                if (env.verbose >= 2)  // keep the displayed core bound current\n                    _reset_lower_bounds(lb_sol, best_core_lb);")], r"""
    int differ = 0;
    for (int s = 0; s < 20; ++s) {
        Instance inst = random_inst(s, 40, 200, 50, 8);
        std::vector<real_t> u[2];
        for (int v = 0; v < 2; ++v) {
            Environment env = quiet(); env.verbose = v ? 2 : 0;
            Subgradient sg; Pricer p; InstAndMap core;
            ThreePhase::_build_tentative_core_instance(inst, core);
            ThreePhase::_compute_greedy_multipliers(core.inst, u[v]);
            real_t step = 0.1F;
            sg(env, inst, 300.0F, p, core, step, u[v]);
        }
        differ += u[0] != u[1];
    }
    REQ(differ == 0);
""", "A verbosity below 2 and a pricing step.", "The verbosity changes the multipliers computed.")

bug("p09_level_off_by_one", "P09", [("utils/print.hpp", "    if (env.verbose >= Level)", "    if (env.verbose > Level || (env.verbose == Level && Level != 5))")], r"""
    Environment env; env.verbose = 5;
    std::string path = scratch("out");
    if (!std::freopen(path.c_str(), "w", stdout)) return 4;
    print<5>(env, "five\n"); print<4>(env, "four\n");
    std::fflush(stdout);
    std::ifstream f(path); std::string a, b;
    std::getline(f, a); std::getline(f, b);
    REQ(a == "five" && b == "four");
""", "The highest verbosity level.", "Messages of level five are not printed at verbosity five.")

bug("p10_static_prev_cost", "P10", [("algorithms/Refinement.hpp", "            if (best_sol.cost < prev_cost)\n                fix_fraction = env.min_fixing;\n            prev_cost = best_sol.cost;\n", "            static real_t last_cost = limits<real_t>::max();\n            if (best_sol.cost < prev_cost && best_sol.cost != last_cost)\n                fix_fraction = env.min_fixing;\n            prev_cost = best_sol.cost;\n            last_cost = best_sol.cost;\n")], r"""
    Instance inst = random_inst(5, 40, 120, 50, 8);
    std::vector<real_t> u(40, 0.5F);
    Solution best; best.cost = 0;
    for (size_t j = 0; j < inst.cols.size(); ++j) { best.idxs.push_back(j); best.cost += inst.costs[j]; }
    std::vector<cidx_t> got[2];
    for (int k = 0; k < 2; ++k) { Environment env = quiet(); local::RefinementFixManager m; got[k] = m(env, inst, u, best); }
    REQ(got[0] == got[1]);
    REQ(!got[1].empty());
""", "A second solve in the same process that starts from the same best cost.", "State of the first solve changes what the second one fixes.")

bug("p13_narrow_counter", "P13", [("utils/CoverCounters.hpp", "    using counter_t = uint32_t;", "    using counter_t = uint8_t;")], r"""
    CoverCounters cc(1);
    std::vector<int> e = {0};
    size_t n = 0;
    for (int k = 0; k < 256; ++k) n += cc.cover(e);
    REQ(n == 1 && cc[0] == 256);
    REQ(cc.is_redundant_cover(e));
""", "More than 255 sets covering the same element.", "The counter wraps, so the element looks uncovered.")

bug("p15_overlapping_start", "P15", [("greedy/scores.hpp", "        if (row_coverage[i] > 0)\n", "        if (row_coverage[i] == 1)\n")], r"""
    Instance inst = make({{0, 1}, {1, 2}, {1, 3}, {3}}, {1, 1, 1, 1}, 4);
    Scores sc; sc.gammas = inst.costs;
    complete_scores_init(inst, sc);
    CoverCounters cc(4);
    std::vector<real_t> u(4, 0.25F);
    update_covered(inst, {0, 1}, u, sc, cc);
    REQ(sc.covered_rows[2] == 1);
    REQ(sc.gammas[2] == 1.25F);
""", "A starting partial solution whose columns overlap.", "Scores do not account for rows that the start covers more than once.")

bug("p16_scp_zero_index", "P16", [("core/parsing.hpp", "            if (cidx <= 0_C || num.cols < cidx)", "            if (cidx < 0_C || num.cols < cidx)")], r"""
    put(scratch("a"), "2 3\n1 1 1\n2\n1 2\n2\n0 3\n");
    // in a child, since the wrong index may crash
    bool t = throws([] { parse_scp_instance(scratch("a")); });
    REQ(t);
""", "A file with column index zero (the format counts from one).", "The index before the first column is used to address memory.")

bug("p19_no_lower_bound", "P19", [("utils/parse_utils.hpp", "        if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)", "        if (oo_range || limits<val_t>::max() < (val < 0 ? -val : val))")], r"""
    REQ(!throws([] { string_to<int16_t>::parse("-32768"); }));
    REQ(throws([] { string_to<int16_t>::parse("-32769"); }));
    REQ(string_to<int64_t>::parse("-9223372036854775807") == -9223372036854775807LL);
""", "The smallest value of a signed type.", "The smallest representable value is rejected although it fits.")

bug("p20_seed_not_applied", "P20", [("core/CliArgs.hpp", "            env.rnd = prng_t(env.seed = string_to<uint64_t>::parse(args[++a]));", "            env.rnd = prng_t((env.seed = string_to<uint64_t>::parse(args[++a])) & 0xffffffffULL);")], r"""
    char const* argv[] = {"x", "-i", "inst", "-s", "4294967299"};
    Environment env = parse_cli_args(5, argv);
    REQ(env.seed == 4294967299ULL);
    prng_t r(4294967299ULL);
    REQ(std::memcmp(env.rnd.state, r.state, sizeof r.state) == 0);
""", "A seed that needs more than 32 bits.", "The generator is seeded with a truncated seed.")

bug("p20_unit_costs_needs_value", "P20", [("core/CliArgs.hpp", "        else if (CFT_FLAG_MATCH(arg, UNITCOST))\n            env.use_unit_costs = true;\n        else if (a + 1 >= asize)\n            fmt::print(\"Missing value of argument {}.\\n\", arg.data());\n", "        else if (a + 1 >= asize)\n            fmt::print(\"Missing value of argument {}.\\n\", arg.data());\n        else if (CFT_FLAG_MATCH(arg, UNITCOST))\n            env.use_unit_costs = true;\n")], r"""
    char const* a1[] = {"x", "-u", "-i", "a"};
    char const* a2[] = {"x", "-i", "a", "-u"};
    REQ(parse_cli_args(4, a1).use_unit_costs);
    REQ(parse_cli_args(4, a2).use_unit_costs);
""", "The unit-cost flag given as the last argument.", "The flag is ignored when nothing follows it.")

bug("p22_cost_rounded", "P22", [("core/parsing.hpp", "    fmt::print(file, \"{}\", sol.cost);\n", "    fmt::print(file, \"{:.2f}\", sol.cost);\n")], r"""
    Solution s; s.cost = 3.0625F; s.idxs = {1, 2};
    write_solution(scratch("s"), s);
    Solution t = parse_solution(scratch("s"));
    REQ(t.cost == s.cost);
    REQ(t.idxs == s.idxs);
""", "A cost with more than two decimals.", "The cost in the solution file is rounded.")

bug("p23_swapped_binding", "P23", [("pycft/_bindings.cpp", "        .def_readwrite(\"min_fixing\", &Environment::min_fixing)", "        .def_readwrite(\"min_fixing\", &Environment::alpha)")], r"""
from pycft._bindings import Environment
e = Environment()
assert abs(e.min_fixing - 0.3) < 1e-6, e.min_fixing
e.alpha = 2.0
e.min_fixing = 0.5
assert e.alpha == 2.0 and e.min_fixing == 0.5
""", "The minimum fixing fraction or the fixing increment set from Python.", "The attribute min_fixing reads and writes another field.", kind="py")

bug("p23_wrong_argument", "P23", [("pycft/set_cover_solver.py", "        env.rel_subgrad_exit = rel_subgrad_exit\n", "        env.rel_subgrad_exit = rel_subgrad_exit or abs_subgrad_exit\n")], r"""
import pycft.set_cover_solver as m
seen = {}
class Env(object): pass
m.Environment = Env
class R:
    def copy(self): return self
def run(env, inst, sol):
    seen.update(env.__dict__)
    return R()
m.run = run
class I:
    def __init__(self): self.rows = []; self.costs = []
    def add(self, e, c): self.costs.append(c)
    def prepare(self): pass
m.Instance = I
m.Solution = lambda: None
s = m.SetCoverSolver()
s.add_set([0], 1)
s.solve(rel_subgrad_exit=0.0, abs_subgrad_exit=7.0)
assert seen["rel_subgrad_exit"] == 0.0, seen
assert seen["abs_subgrad_exit"] == 7.0, seen
""", "A relative exit threshold of exactly zero.", "The zero is replaced by the absolute threshold.", kind="py")

bug("p24_prepare_skipped", "P24", [("pycft/set_cover_solver.py", "            )\n            # valid\n        self._initialized = False\n", "            )\n            # valid\n            self._initialized = False\n")], r"""
from pycft import SetCoverSolver
s = SetCoverSolver()
s.add_set([0, 1], 10)
s.add_set([2], 1)
s.solve(verbose=0)
assert s.get_cost() == 11
s.add_set([0, 1], 3)
assert s._initialized is False
s.solve(verbose=0)
assert s.get_cost() == 4, s.get_cost()
assert sorted(s.get_solution()) == [1, 2]
""", "A set without new elements added after a solve.", "The row data stay those of the former instance.", kind="py")

bug("p24_negative_cost_accepted", "P24", [("pycft/_bindings.cpp", "                 if (cost < 0.0)\n", "                 if (cost < -1.0)\n")], r"""
from pycft._bindings import Instance
i = Instance()
try:
    i.add([0], -0.5)
except RuntimeError:
    pass
else:
    raise SystemExit("negative cost accepted")
assert len(i.costs) == 0 and len(i.cols) == 0
""", "A slightly negative cost given to Instance.add.", "Invalid input is accepted.", kind="py")

bug("p25_inclusive_bound", "P25", [("utils/random.hpp", "checked_cast<gen_type>(max - min + IntT{1})", "checked_cast<gen_type>(max - min + (max - min > IntT{1000} ? IntT{0} : IntT{1}))")], r"""
    Xoshiro128P rnd(1);
    int hi = 0;
    for (int k = 0; k < 100000; ++k) { int v = roll_dice(rnd, 0, 1001); hi = std::max(hi, v); }
    REQ(hi == 1001);
""", "A range wider than a thousand values.", "The upper bound is never drawn.")

bug("p26_sorted_array_equal_keys", "P26", [("utils/SortedArray.hpp", "            if (key(elem) >= key(back()))\n                return false;\n", "            if (key(back()) < key(elem))\n                return false;\n")], r"""
    struct K { int operator()(std::pair<int, int> const& p) const { return p.first; } };
    auto a = make_custom_key_sorted_array<std::pair<int, int>, 2>(K{});
    a.try_insert(std::make_pair(1, 0)); a.try_insert(std::make_pair(2, 1));
    REQ(!a.try_insert(std::make_pair(2, 2)));
    REQ(a[1].second == 1);
""", "A full array and an element whose key equals the largest one kept.", "An element that is not smaller replaces one already kept.")

bug("p27_find_last_first_char", "P27", [("utils/StringView.hpp", "        if (cond((*this)[0]))\n            return 0;\n        return size();\n", "        if (size() > 1 && cond((*this)[0]))\n            return 0;\n        return size();\n")], r"""
    std::string s = "a";
    auto isa = [](char c) { return c == 'a'; };
    REQ(StringView(s).find_last_true(isa) == 0);
    std::string t = "7";
    REQ(rtrim(StringView(t)).to_cpp_string() == "7");
""", "A text of exactly one character.", "The only character is not found (and trimming such a text reads past it).")

bug("p28_row_write_index", "P28", [("fixing/fix_columns.hpp", "            cidx_t w = 0_C;\n            for (cidx_t old_j : old_row) {", "            int16_t w = 0;\n            for (cidx_t old_j : old_row) {")], r"""
    int n = 33000;
    std::vector<std::vector<int>> cols(n, {1}); std::vector<double> costs(n, 1);
    cols[0] = {0};
    Instance inst = make(cols, costs, 2);
    IdxsMaps m;
    // the wrong index would address memory before the row: look at the type instead of running into it
    std::ifstream f("/dev/null");
    Instance keep = inst;
    auto& row = inst.rows[1]; row.reserve(70000); size_t sz = row.size(); row.insert(row.begin(), 33000, 0); row.erase(row.begin(), row.begin() + 33000); REQ(row.size() == sz);
    bool ok = !throws([&] { remove_fixed_cols_from_inst({0}, inst, m); });
    REQ(ok && inst.rows.size() == 1 && inst.rows[0].size() == 32999u);
""", "A row covered by more than 32767 columns.", "The write position of a row is kept in a 16-bit variable and wraps.")

bug("p29_not_inline", "P29", [("greedy/redundancy.hpp", "inline void check_redundancy_data(", "void check_redundancy_data(")], r"""
cat > "$SCRATCH/a.cpp" <<'X'
#include "greedy/Greedy.hpp"
int main() { return 0; }
X
cat > "$SCRATCH/b.cpp" <<'X'
#include "greedy/Greedy.hpp"
X
g++ -std=gnu++11 -O0 -I/repo/src "$SCRATCH/a.cpp" "$SCRATCH/b.cpp" -o "$SCRATCH/x" -lfmt
""", "Two translation units that include the header.", "The function is defined twice.", kind="sh")

bug("p30_reset_in_debug", "P30", [("algorithms/Refinement.hpp", "            ridx_t covered_rows = 0_R;\n            row_coverage.reset(nrows);\n", "            ridx_t covered_rows = 0_R;\n            CFT_IF_DEBUG(row_coverage.reset(nrows));\n")], r"""
    Instance inst = make({{0}, {1}, {2}, {3}}, {1, 1, 1, 1}, 4);
    Environment env = quiet(); env.min_fixing = 0.5F;
    Solution best; best.cost = 4; best.idxs = {0, 1, 2, 3};
    std::vector<real_t> u(4, 0.5F);
    local::RefinementFixManager m;
    REQ(m(env, inst, u, best).size() == 2);
""", "A release build.", "The counters are reset only in debug builds, so a release build fixes every column.")

bug("p31_period_overrun", "P31", [("subgradient/utils.hpp", "            else if (delta <= 0.2_F)\n                period = min(max_period_increment, 2 * period);\n", "            else if (delta <= 0.2_F)\n                period = period < max_period_increment ? 2 * period : period;\n")], r"""
    local::PricingManager pm(10, 15);
    pm.update(100.0F, 90.0F, 100.0F);
    int at = 0;
    for (size_t i = 11; i <= 25; ++i) at += pm(i);
    REQ(at == 1);  // the next complete pricing is at most 15 iterations after the one at 10
""", "A middle gap when doubling the period passes the maximum.", "The pricing period exceeds its maximum.")

bug("p32_not_steady", "P32", [("utils/Chrono.hpp", "    using high_res_clock = std::chrono::steady_clock;", "    using high_res_clock = std::chrono::high_resolution_clock;"), ("utils/Chrono.hpp", "    using time_point     = std::chrono::steady_clock::time_point;", "    using time_point     = std::chrono::high_resolution_clock::time_point;")], r"""
    REQ(Chrono<>::high_res_clock::is_steady);
    REQ((std::is_same<Chrono<>::time_point, std::chrono::steady_clock::time_point>::value));
""", "The wall clock being set while the program runs.", "Time is measured with a clock that can jump.")

bug("p32_time_cast_units", "P32", [("utils/Chrono.hpp", "        return t * factor::num / factor::den;", "        return factor::num > 1 ? t / factor::den : t * factor::num / factor::den;")], r"""
    REQ(Chrono<sec>::time_cast<msec>(2.0) == 2000.0);
    REQ(Chrono<minutes>::time_cast<sec>(2.0) == 120.0);
    REQ(Chrono<msec>::time_cast<sec>(500.0) == 0.5);
""", "A conversion to a finer unit.", "Times are not multiplied by the ratio of the units.")

bug("p14_uncover_after_filter", "P14", [("greedy/redundancy.hpp", "        red_set.total_cover.uncover(inst.cols[j]);\n        red_set.cols_to_remove.push_back(j);\n", "        red_set.cols_to_remove.push_back(j);\n"),
("greedy/redundancy.hpp", "            red_set.partial_cov_count += as_ridx(red_set.partial_cover.cover(inst.cols[x.idx]));\n            return true;\n        });\n", "            red_set.partial_cov_count += as_ridx(red_set.partial_cover.cover(inst.cols[x.idx]));\n            return true;\n        });\n        red_set.total_cover.uncover(inst.cols[j]);\n")], r"""
    // rows 0..19, each covered by exactly two columns: {2k, 2k+1} by column k, and by columns 10 + k alike
    for (int s = 0; s < 200; ++s) {
        Lcg g{uint64_t(s) + 1};
        Instance inst; std::vector<std::vector<int>> cols; std::vector<double> costs;
        for (int k = 0; k < 30; ++k) {
            std::vector<int> c;
            for (int i = 0; i < 16; ++i) if (g() % 8 == 0) c.push_back(i);
            if (c.empty()) c.push_back(int(g() % 16));
            cols.push_back(c); costs.push_back(1 + g() % 9);
        }
        inst = make(cols, costs, 16);
        std::vector<cidx_t> sol; for (int k = 0; k < 30; ++k) sol.push_back(k);
        if (!covers(inst, sol)) continue;
        RedundancyData r;
        r.total_cover.reset(16);
        for (cidx_t j : sol) r.total_cover.cover(inst.cols[j]);
        complete_init_redund_set(inst, sol, 1e9F, r);
        heuristic_removal(inst, r);
        enumeration_removal(inst, r);
        std::vector<cidx_t> left;
        for (cidx_t j : sol) if (std::find(r.cols_to_remove.begin(), r.cols_to_remove.end(), j) == r.cols_to_remove.end()) left.push_back(j);
        REQ(covers(inst, left));
    }
""", "More redundant columns than the enumeration handles, so that some are removed one by one.", "Whether the remaining columns are still redundant is decided before the removed column is uncounted, so a column that has become necessary can be removed next.")

bug("p17_extra_rows_ignored", "P17", [("core/parsing.hpp", "        if (rsize(tokens) != j_nrows)\n            throw std::invalid_argument(\"Invalid file format: not a RAIL instance?\");", "        if (rsize(tokens) < j_nrows)\n            throw std::invalid_argument(\"Invalid file format: not a RAIL instance?\");")], r"""
    put(scratch("a"), "2 2\n1 2 1 2\n1 1 1 2\n");   // the second column declares one row and lists two
    REQ(throws([] { parse_rail_instance(scratch("a")); }));
    put(scratch("b"), "2 2\n1 2 1 2\n1 1 1\n");
    REQ(!throws([] { parse_rail_instance(scratch("b")); }));
""", "A RAIL line with more rows than it declares.", "The surplus is dropped and a guessed instance is solved instead of reporting the malformed file.")

bug("p18_row_beside_the_objective", "P18", [("core/parsing.hpp", "        for (size_t t = 1; t < tokens.size(); t += 2) {\n            if (tokens[t] == obj_name)\n                inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);\n            else {", "        for (size_t t = 1; t < tokens.size(); t += 2) {\n            if (tokens[t] == obj_name) {\n                inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);\n                if (t > 1)\n                    break;\n            } else {")], r"""
    put(scratch("a"), "NAME x\nROWS\n N COST\n G R1\n G R2\n G R3\nCOLUMNS\n x1 R1 1 COST 3 R2 1\n x1 R3 1\n x2 COST 1 R2 1\nRHS\n rhs R1 1 R2 1\n rhs R3 1\nBOUNDS\nENDATA\n");
    Instance i = parse_mps_instance(scratch("a"));
    REQ(i.costs[0] == 3 && i.costs[1] == 1);
    REQ(i.cols[0].size() == 3);
    REQ(i.cols[1].size() == 1);
""", "An MPS line that lists the objective between two rows.", "The row after the objective entry is lost.")

bug("p02_negative_costs_not_added", "P02", [("fixing/FixingData.hpp", "            fixing.fixed_cost += inst.costs[j];", "            fixing.fixed_cost += max(inst.costs[j], 0.0_F);")], r"""
    Instance inst = make({{0}, {1}, {2}, {3}, {2, 3}}, {1, -2, 4, 8, 16}, 4);
    FixingData f; IdxsMaps m;
    make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), f);
    fix_columns_and_compute_maps({1, 2}, inst, f, m);
    REQ((f.fixed_cols == std::vector<cidx_t>{1, 2}));
    REQ(f.fixed_cost == 2);
""", "A column with a negative cost (which the library accepts) that gets fixed.", "The reported cost omits the negative costs of fixed columns, so it is not the cost of the reported columns.")

bug("p03_identity_map_kept_by_size", "P03", [("fixing/FixingData.hpp", "    fixing.curr2orig.col_map.resize(ncols);\n    fixing.curr2orig.row_map.resize(nrows);\n", "    bool const resized = csize(fixing.curr2orig.col_map) != ncols;\n    fixing.curr2orig.col_map.resize(ncols);\n    fixing.curr2orig.row_map.resize(nrows);\n"),
("fixing/FixingData.hpp", "    for (cidx_t j = 0_C; j < ncols; ++j)\n        fixing.curr2orig.col_map[j] = j;\n", "    if (resized)\n        for (cidx_t j = 0_C; j < ncols; ++j)\n            fixing.curr2orig.col_map[j] = j;\n")], r"""
    Instance inst = make({{0}, {1}, {2}, {3}, {2, 3}}, {1, 2, 4, 8, 16}, 4), other = make({{0}, {1}, {2}, {0, 1, 2}}, {1, 1, 1, 2}, 3);
    FixingData f; IdxsMaps m;
    make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), f);
    fix_columns_and_compute_maps({0}, inst, f, m);
    make_identity_fixing_data(csize(other.cols), rsize(other.rows), f);
    for (cidx_t j = 0; j < csize(other.cols); ++j) REQ(f.curr2orig.col_map[j] == j);
""", "A fixing state used again for an instance with as many columns as were left the last time (the refinement does this).", "The stale map stays, so returned indexes name other columns of the caller's instance.")

bug("p21_range_errors_are_warnings", "P21", [("main.cpp", "    } catch (std::exception const& e) {\n", "    } catch (std::out_of_range const& e) {\n        fmt::print(stderr, \"\\nCFT> WARNING: {}\\n\", e.what());\n        std::fflush(stdout);\n    } catch (std::exception const& e) {\n")], r"""
    REQ(std::system(("g++ -std=gnu++11 -DNDEBUG -I/repo/src /repo/src/main.cpp -o " + scratch("prog") + " -lfmt").c_str()) == 0);
    put(scratch("a"), "1 1\n1 1 99999999999999999999\n");
    REQ(std::system((scratch("prog") + " -i " + scratch("a") + " -p RAIL -o " + scratch("o") + " > /dev/null 2>&1").c_str()) != 0);
    put(scratch("b"), "1 1\n1 1 1\n");
    REQ(std::system((scratch("prog") + " -i " + scratch("b") + " -p RAIL -o " + scratch("o") + " > /dev/null 2>&1").c_str()) == 0);
""", "An input file or option with a number outside the range of its type.", "The program reports a warning and exits with status 0 without a solution.")
