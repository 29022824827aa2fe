From 22425b707d87f3716250010b3799716d56acaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 01/18] fix: drop already removed columns from the greedy
 solution when no redundant column is left

---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From 134f963b7a1718f2924d0910ebef04ba8027af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 02/18] fix: adopt a heuristic solution only when the greedy
 found one below its cutoff

---
 src/algorithms/ThreePhase.hpp   | 3 ++-
 src/subgradient/Subgradient.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..e2e5556 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,8 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // NOTE: with rounding, cutoff + fixed_cost can be lower than best_sol.cost
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..7824080 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,7 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From c7267ef4d0244cb14f2d0110d6be0c63c4a60589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 03/18] fix: reset the fixing data whenever refinement restarts
 from the original instance

---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..1a752b1 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);  // inst is the original one again
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From dd27192ae6ecf723790ee5c8a5b376eeaffeda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 04/18] fix: do not return the last line of a file again once
 its end has been reached

---
 src/utils/parse_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..247e981 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -131,7 +131,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();  // Past the end, do not return the last line again
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From a6c0fcecddb76f46f34a2abe35e7440621dead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 05/18] fix: reject out of range and partially numeric text
 when parsing numbers

---
 src/utils/parse_utils.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 247e981..b7ad536 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -73,9 +73,14 @@ struct string_to {
                            if_t<std::is_signed<val_t>::value, int64_t, uint64_t>,
                            long double>;
 
-    // Parse without modifying the string view  (note the pass by value)
+    // Parse the whole string without modifying the string view  (note the pass by value)
     static T parse(StringView str) {
-        return consume(str);
+        T val = consume(str);
+        if (!ltrim(str).empty())
+            throw std::invalid_argument(fmt::format("Trailing characters parsing {} (as {})",
+                                                    str.data(),
+                                                    typeid(T).name()));
+        return val;
     }
 
     // Parse and modify the string view removing the element parsed
@@ -94,10 +99,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
-        } else {  // unsigned
+            oo_range = errno == ERANGE;
+        } else {  // unsigned, note: strtoull accepts (and wraps) negative numbers
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE || (end != str.data() && ltrim(str)[0] == '-');
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From b0f3f8bddf4f46abbb2418047040182e56132207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 06/18] fix: report truncated sections, incomplete lines and
 unknown rows of MPS files

---
 src/core/parsing.hpp      | 22 ++++++++++++++++------
 src/utils/parse_utils.hpp |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..8bce1ce 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -46,12 +46,12 @@ namespace local { namespace {
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
         // Check RHSs
         auto line_view = file_iter.next();
-        while (line_view != "BOUNDS") {
+        while (line_view != "BOUNDS" && line_view != "ENDATA" && !file_iter.ended()) {
             line_view   = trim(line_view);
             auto tokens = split(line_view);
-            assert(tokens[0] == "rhs" || tokens[0] == "RHS");
+            assert(tokens.empty() || tokens[0] == "rhs" || tokens[0] == "RHS");
 
-            for (size_t t = 1; t < tokens.size(); t += 2) {
+            for (size_t t = 1; t + 1 < tokens.size(); t += 2) {
                 auto row_name = tokens[t];
                 assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
@@ -191,7 +191,11 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   rows_map = std::unordered_map<std::string, ridx_t>();
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
+        if (file_iter.ended())
+            throw std::invalid_argument("Invalid file format: COLUMNS section not found.");
         auto tokens = split(line_view);
+        if (tokens.size() == 1 && line_view != "ROWS")
+            throw std::invalid_argument("Invalid file format: incomplete row in MPS instance.");
         if (!tokens.empty() && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
         if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
@@ -203,6 +207,8 @@ inline Instance parse_mps_instance(std::string const& path) {
     line_view          = file_iter.next();
     inst.cols.begs.clear();
     while (line_view != "RHS") {
+        if (file_iter.ended())
+            throw std::invalid_argument("Invalid file format: RHS section not found.");
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
@@ -210,6 +216,9 @@ inline Instance parse_mps_instance(std::string const& path) {
             continue;
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: incomplete column in MPS instance.");
+
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -220,10 +229,11 @@ inline Instance parse_mps_instance(std::string const& path) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown row in MPS instance.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index b7ad536..66120f8 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -140,6 +140,11 @@ struct FileLineIterator {
             line.clear();  // Past the end, do not return the last line again
         return trim(StringView(line));
     }
+
+    // True if the last call to next found no other line
+    bool ended() const {
+        return in.fail();
+    }
 };
 
 }  // namespace cft
-- 
2.43.0


From a62a10c5ab1eb074ad35108223a3d6e7e95bdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 07/18] fix: reject row indexes below the valid range in RAIL
 and CVRP files

---
 src/core/parsing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 8bce1ce..e00aa57 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -126,7 +126,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -157,7 +157,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
-- 
2.43.0


From d9b2d564b996adaf9450b8c86db41af971f5bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 08/18] fix: check the indexes and the coverage of initial
 solutions and compute their actual cost

---
 src/core/parsing.hpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index e00aa57..cd75a97 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -166,6 +166,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || num.cols <= j)
+            throw std::invalid_argument("Invalid column index in the initial solution.");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
@@ -268,6 +270,26 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     file.close();
 }
 
+namespace local { namespace {
+    // Check that a solution coming from a file is a cover and compute its actual cost.
+    inline void check_and_price_init_sol(Instance const& inst,  // in
+                                         Solution&       sol    // inout
+    ) {
+        auto in_col = std::vector<bool>(size(inst.rows), false);
+        sol.cost    = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (j < 0_C || csize(inst.cols) <= j)
+                throw std::invalid_argument("Invalid column index in the initial solution.");
+            sol.cost += inst.costs[j];
+            for (ridx_t i : inst.cols[j])
+                in_col[i] = true;
+        }
+        if (!all(in_col, [](bool covered) { return covered; }))
+            throw std::invalid_argument("The initial solution does not cover every row.");
+    }
+}  // namespace
+}  // namespace local
+
 inline FileData parse_inst_and_initsol(Environment const& env) {
     auto fdata = FileData();
 
@@ -292,15 +314,14 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
         throw std::runtime_error("Parser does not exists.");
     }
 
-    if (!env.initsol_path.empty()) {
+    if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
-        CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
-    }
 
-    if (env.use_unit_costs) {
+    if (env.use_unit_costs)
         fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
-        fdata.init_sol.cost = as_real(size(fdata.init_sol.idxs));
-    }
+
+    if (!fdata.init_sol.idxs.empty())
+        local::check_and_price_init_sol(fdata.inst, fdata.init_sol);
 
     print<1>(env, "CFT> Instance size: {} x {}.\n", rsize(fdata.inst.rows), csize(fdata.inst.cols));
     return fdata;
-- 
2.43.0


From f3396b7abb92ee2e1a99046d7e76fe56f653c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 09/18] fix: report empty instances and rows that no column
 covers when reading a file

---
 src/core/parsing.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index cd75a97..de337cb 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -38,6 +38,8 @@ namespace local { namespace {
         num.cols       = string_to<cidx_t>::consume(line_view);
         if (!line_view.empty())
             throw std::invalid_argument("Invalid file format: too many values in the first line.");
+        if (num.rows <= 0_R || num.cols <= 0_C)
+            throw std::invalid_argument("Invalid file format: no rows or columns.");
         return num;
     }
 
@@ -317,6 +319,9 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
     if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
 
+    if (any(fdata.inst.rows, [](std::vector<cidx_t> const& row) { return row.empty(); }))
+        throw std::invalid_argument("Infeasible instance: a row is not covered by any column.");
+
     if (env.use_unit_costs)
         fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
 
-- 
2.43.0


From c8d868bdfcfa392984e3628b64fc380dfa712c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 10/18] fix: report solution files that cannot be completely
 written

---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de337cb..66c4a59 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -270,6 +270,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (file.fail())
+        throw std::runtime_error("Failed to write file: " + path);
 }
 
 namespace local { namespace {
-- 
2.43.0


From 9cf2559353e5a3bdc1d5f559405b7f33f1a12bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 11/18] fix: a coin flip with probability zero is never true

---
 src/utils/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..609cba2 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -99,7 +99,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;
 }
 
 }  // namespace cft
-- 
2.43.0


From f17f9fedf7fa69290ab5bb99dfb4ff6fdad42340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 12/18] fix: do not store the number of nonzeros in a column
 index

---
 src/core/Instance.hpp |  2 +-
 src/core/parsing.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..ec9e71d 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -64,7 +64,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cft::size(cols.idxs) / checked_cast<size_t>(nrows));
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 66c4a59..2d2d332 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -101,7 +101,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(size(inst.cols.idxs));
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -131,7 +131,7 @@ inline Instance parse_rail_instance(std::string const& path) {
             if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(size(inst.cols.idxs));
     }
 
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
@@ -162,7 +162,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(size(fdata.inst.cols.idxs));
     }
 
     line_view = file_iter.next();
@@ -225,7 +225,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(size(inst.cols.idxs));
             inst.costs.push_back(limits<real_t>::max());
         }
 
@@ -243,7 +243,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = file_iter.next();
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(size(inst.cols.idxs));
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     fill_rows_from_cols(inst.cols, nrows, inst.rows);
-- 
2.43.0


From e27b7f684c40ab313c2c7dc0f1c2d1bf67ae3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 13/18] fix: seed the random generator when the seed is set
 from Python

---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..974b534 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) { self.rnd = prng_t(self.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From d0da613c461895d5118a40beec4804ef86059029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 14/18] fix: leave the instance unchanged when a column with
 negative cost is rejected

---
 src/pycft/_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 974b534..6639d37 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,9 +124,9 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
                  if (cost < 0.0)
                      throw std::runtime_error("Costs must be non-negative.");
+                 self.cols.push_back(col);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
-- 
2.43.0


From 7555ebbd6310f47c7e0778a9028d023e3cdf9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 15/18] fix: expose the dual multipliers under the name used by
 the Python wrapper

---
 src/pycft/_bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 6639d37..166aa17 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -160,6 +160,8 @@ PYBIND11_MODULE(_bindings, m) {
         .def(py::init<>())
         .def_readwrite("idxs", &DualState::mults)
         .def_readwrite("cost", &DualState::lb)
+        .def_readwrite("mults", &DualState::mults)
+        .def_readwrite("lb", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
             return fmt::format("DualState(mults={}, lb={})", a.mults, a.lb);
-- 
2.43.0


From a511f1e4496342ec6fb8eb37145d4b9a6d998508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 16/18] fix: loading an instance from a file in Python

---
 src/pycft/set_cover_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..7eadee4 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -82,8 +82,10 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
+        self._result = None  # any previous solution belongs to another instance
+        if len(fdata.init_sol.idxs) > 0:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
         self.num_elements = len(self._instance.costs)
         self._initialized = True  # a file is always considered initialized
 
-- 
2.43.0


From a685c6bbf9a9020d52af54bdacc4a31bd68bc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 17/18] fix: discard the Python solution whenever a set
 introduces a new element

---
 src/pycft/set_cover_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 7eadee4..5721f3d 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -61,13 +61,13 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        self._instance.add(elements, cost)
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
@@ -82,6 +82,7 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
+        self._max_element = len(self._instance.rows) - 1
         self._result = None  # any previous solution belongs to another instance
         if len(fdata.init_sol.idxs) > 0:
             self._result = CftResult()
-- 
2.43.0


From a4d7a00cfb483af86b4463c396f26af7d0f0c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 18/18] fix: utility.hpp needs <iterator> for std::begin,
 whatever was included before it

---
 src/utils/utility.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/utility.hpp b/src/utils/utility.hpp
index 9e742d4..d184598 100644
--- a/src/utils/utility.hpp
+++ b/src/utils/utility.hpp
@@ -6,6 +6,7 @@
 
 
 #include <cstddef>
+#include <iterator>
 #include <utility>
 
 #include "utils/assert.hpp"  // IWYU pragma: keep
-- 
2.43.0

