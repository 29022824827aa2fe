"""What each check consists of."""
import os
import rules, pyrules
from compare import VERIF

class Check:
    def __init__(self, explanation, units=True, rules=(), trees=True, extra=(), debug=False):
        self.explanation, self.units, self.rules, self.needs_trees, self.extra_units = explanation, units, list(rules), trees, set(extra)
        self.debug = debug

ASSUMPTIONS = [
    "real and integer arithmetic is treated as exact arithmetic (no rounding, no overflow); narrowing is the subject of P28 only",
    "the standard library behaves as documented",
    "the committed reference in spec/src states the required outputs; it was reviewed against the documentation and repaired where the code was wrong",
    "memory reached through distinct parameters does not overlap",
]

EQ = ("Value-graph equivalence: for each public unit listed, the gated value graph of every observable output (return value fields, reference parameters, "
      "thrown errors, generator state) is built from the resolved syntax tree of /repo's current source, callees with obligations of their own standing as "
      "uninterpreted functions, normalised, and required to be the normal form that the property demands. ")

COST = {"cft::Greedy::operator()": 60, "cft::parse_mps_instance": 10, "cft::parse_cli_args": 8, "cft::ColFixing::operator()": 9, "cft::ThreePhase::operator()": 9,
        "cft::Subgradient::operator()": 8, "cft::run": 8, "cft::client::use_run": 9, "cft::client::use_run_cold": 9, "cft::Subgradient::heuristic": 7,
        "cft::Pricer::operator()": 6, "cft::local::Enumerator::invoke": 6}

CHECKS = {}
for p in ("P01 P02 P03 P04 P05 P06 P07 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P25 P26 P27 P31 P32").split():
    CHECKS[p] = Check(EQ)
CHECKS["P08"] = Check(EQ + "A query over every function definition finds reads of nondeterministic sources.", rules=[rules.ambient])
CHECKS["P09"] = Check(EQ)
CHECKS["P10"] = Check(EQ + "A query over every variable and field finds mutable state shared between calls.", rules=[rules.global_state])

CHECKS["P13"] = Check(EQ + "A query over the counting expressions of CoverCounters finds counters that can wrap around.", rules=[rules.counter_width])
CHECKS["P32"] = Check(EQ + "A query over the clock reads finds clocks that are not monotonic.", rules=[rules.clock])

CHECKS["P28"] = Check(EQ + "Compile witnesses instantiate the whole library, the program and client code with a table of numeric types; a query over every conversion in "
                      "three width configurations finds values funnelled through narrower types.", rules=[rules.types_compile, rules.widths])
CHECKS["P29"] = Check("Compile and link witnesses over every header of the current tree: alone, twice, all in both orders, two translation units in one program.",
                      units=False, rules=[rules.headers_stand_alone], trees=False)
CHECKS["P30"] = Check(EQ + "The debug and the release build of the current tree are both summarised, and every observable output of every unit must be the same "
                      "in both; in the debug build an assertion contributes the effects of evaluating its condition and nothing else. Errors raised on outside input "
                      "are compared with their definition, so no check on outside input can be left to an assertion.", debug=True)

for p, what in (("P23", "that reach the solver's parameters"), ("P24", "that make up the state of the solver object")):
    CHECKS[p] = Check("Value-graph equivalence for the Python module, over the outputs " + what + ": the binding table is read off the resolved syntax tree of the "
                      "binding file (against stub declarations of pybind11), bound lambdas are summarised like every other function, and the methods of the wrapper "
                      "class are summarised from their syntax tree with the native attributes resolved through that table.",
                      units=False, rules=[pyrules.bindings(p), pyrules.wrapper(p)], trees=False)

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid): out.append(l.split(" ", 2)[2].split(" :: ")[0])
    return out
