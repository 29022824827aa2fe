"""Planted bugs: generates /verif/seeded/<id>/ from the table. Usage: bugs.py gen [pattern]; validation is tools/validate.py."""
import re, os, subprocess, sys, json, shutil, fnmatch, stat
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
def bug(id, prop, edits, demo, needs, breaks, kind="cpp"):
    B[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind)

HPP = r'''
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <random>
#include <array>
#include <iterator>
#include <stdexcept>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/os.h>
#include <fmt/ranges.h>
#define private public
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
#include "core/utils.hpp"
#undef private
using namespace cft;
static int bad = 0;
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); bad = 1; } } while (0)
struct Lcg { uint64_t s; uint32_t operator()() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return uint32_t(s >> 33); } };
inline Instance make(std::vector<std::vector<int>> const& cols, std::vector<double> const& costs, int nrows) {
    Instance inst;
    for (size_t j = 0; j < cols.size(); ++j) {
        std::vector<ridx_t> c(cols[j].begin(), cols[j].end());
        inst.cols.push_back(c);
        inst.costs.push_back(real_t(costs[j]));
    }
    fill_rows_from_cols(inst.cols, nrows, inst.rows);
    return inst;
}
inline Instance random_inst(uint64_t seed, int nrows, int ncols, int maxcost, int density = 20) {
    Lcg g{seed * 7919 + 13};
    for (int k = 0; k < 10; ++k) g();
    std::vector<std::vector<int>> cols(ncols);
    std::vector<double> costs(ncols);
    std::vector<int> hit(nrows, 0);
    for (int j = 0; j < ncols; ++j) {
        for (int i = 0; i < nrows; ++i) if (int(g() % 100) < density) { cols[j].push_back(i); hit[i] = 1; }
        if (cols[j].empty()) { int i = int(g() % nrows); cols[j].push_back(i); hit[i] = 1; }
        costs[j] = 1 + int(g() % maxcost);
    }
    for (int i = 0; i < nrows; ++i) if (!hit[i]) {
        auto& c = cols[i % ncols];
        c.push_back(i); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    }
    return make(cols, costs, nrows);
}
template <typename S> bool covers(Instance const& inst, S const& idxs) {
    std::vector<char> c(inst.rows.size(), 0);
    for (auto j : idxs) { if (j < 0 || size_t(j) >= inst.cols.size()) return false; for (auto i : inst.cols[j]) c[i] = 1; }
    return std::all_of(c.begin(), c.end(), [](char x) { return x; });
}
template <typename S> double cost_of(Instance const& inst, S const& idxs) {
    double c = 0; for (auto j : idxs) c += inst.costs[j]; return c;
}
inline double optimum(Instance const& inst) {  // at most 30 rows, by dynamic programming over covered sets
    size_t n = inst.rows.size();
    std::vector<double> best(size_t(1) << n, 1e30);
    best[0] = 0;
    std::vector<size_t> m(inst.cols.size(), 0);
    for (size_t j = 0; j < m.size(); ++j) for (auto i : inst.cols[j]) m[j] |= size_t(1) << i;
    size_t full = (size_t(1) << n) - 1;
    for (size_t s = 0; s < full; ++s) {
        if (best[s] >= 1e30) continue;
        size_t r = 0; while (s >> r & 1) ++r;
        for (auto j : inst.rows[r]) best[s | m[j]] = std::min(best[s | m[j]], best[s] + inst.costs[j]);
    }
    return best[full];
}
inline Environment quiet() { Environment env; env.verbose = 0; return env; }
inline std::string scratch(std::string const& name) { return std::string(std::getenv("SCRATCH")) + "/" + name; }
inline void put(std::string const& path, std::string const& text) { std::ofstream f(path); f << text; }
template <typename F> bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }
'''
CPP_SH = r'''#!/bin/bash
# exit 0: the property holds on the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
export SCRATCH=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$SCRATCH"' EXIT
g++ -std=gnu++11 @FLAGS@ -I/repo/src -I"$D" "$D/demo.cpp" -o "$SCRATCH/demo" -lfmt || exit 3
cd "$SCRATCH" && timeout 120 ./demo
'''
PY_SH = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build_release/py timeout 120 /opt/vp/venv/bin/python "$D/demo.py"
'''

exec(open(os.path.join(HERE, "tools", "bugtable.py")).read())

def git(*a, cwd): return subprocess.run(["git"] + list(a), cwd=cwd, capture_output=True, text=True, check=True).stdout

def gen(pat="*"):
    work = "/tmp/w/bugwork"
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    for i, b in B.items():
        if not fnmatch.fnmatch(i, pat): continue
        git("checkout", "-q", ".", cwd=work)
        for f, o, n in b["edits"]:
            p = os.path.join(work, "src", f); t = open(p).read()
            tail = "\n" if o.endswith("\n") else ""
            rx = r"\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(l) for l in (o[:-1] if tail else o).split("\n") if l.strip()) + re.escape(tail)
            ms = list(re.finditer(rx, t))
            if len(ms) != 1: print("%s: %s: pattern occurs %d times: %s" % (i, f, len(ms), o)); break
            open(p, "w").write(t[:ms[0].start()] + n + t[ms[0].end():])
        d = os.path.join(HERE, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(git("diff", cwd=work))
        if b["kind"] == "cpp":
            flags = "-DNDEBUG -O1"
            open(os.path.join(d, "demo.hpp"), "w").write(HPP)
            open(os.path.join(d, "demo.cpp"), "w").write('#include "demo.hpp"\nint main() {\n' + b["demo"].strip("\n") + "\n    return bad;\n}\n")
            sh = CPP_SH.replace("@FLAGS@", flags)
        elif b["kind"] == "py":
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip("\n") + "\n")
            sh = PY_SH
        else:
            sh = "#!/bin/bash\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nexport SCRATCH=$(mktemp -d /tmp/demo.XXXXXX)\ntrap 'rm -rf \"$SCRATCH\"' EXIT\n" + b["demo"].strip("\n") + "\n"
        p = os.path.join(d, "demo.sh"); open(p, "w").write(sh); os.chmod(p, 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__" and sys.argv[1:2] == ["gen"]: gen(*sys.argv[2:3])
