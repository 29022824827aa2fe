#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

REF, TPH = "src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp"
INST, CFT, PARS, CLI, CUT = "src/core/Instance.hpp", "src/core/cft.hpp", "src/core/parsing.hpp", "src/core/CliArgs.hpp", "src/core/utils.hpp"
CFIX, FDAT, FCOL = "src/fixing/ColFixing.hpp", "src/fixing/FixingData.hpp", "src/fixing/fix_columns.hpp"
GRE, RED, SCO = "src/greedy/Greedy.hpp", "src/greedy/redundancy.hpp", "src/greedy/scores.hpp"
PRI, SUB, SUT = "src/subgradient/Pricer.hpp", "src/subgradient/Subgradient.hpp", "src/subgradient/utils.hpp"
U = lambda n: "src/utils/" + n
PYB, PYS = "src/pycft/_bindings.cpp", "src/pycft/set_cover_solver.py"

prop("P01", "Returned solutions cover every element",
 "Whenever the full algorithm or its three-phase step returns a solution for a coverable instance, every row of the instance it was given is covered by at least one of the returned columns. A candidate replaces the current best only if it really is a complete cover found by the heuristic, expressed together with all columns fixed so far.",
 ["inputs", "configurations", "histories"],
 "every coverable instance, seed, parameter setting, warm start and time limit, and every iteration at which a best solution is replaced",
 "The tests run a handful of small instances and check the final cover of those; a cover lost only after several fixings, on an early exit or when nothing was fixed in an iteration is out of their reach.",
 [REF, TPH, GRE, SUB, FDAT], [("adoption of three-phase results together with the fixed columns", REF), ("adoption of heuristic results through core and fixing maps", TPH), ("greedy fills until no uncovered row remains", GRE)],
 observe=["CftResult.sol returned by cft::run and ThreePhase"])

prop("P02", "Reported cost is the cost of the reported columns",
 "The cost stored in a returned solution equals the sum, over exactly the returned columns, of the costs those columns have in the instance the caller passed. In particular a column dropped from or added to a solution is always dropped from or added to its cost in the same step, including the part contributed by fixed columns.",
 ["inputs", "configurations", "histories"],
 "every instance, seed and parameter setting, at every point where a solution is built, translated, reduced or replaced",
 "Tests compare the cost only on a few instances with integer costs and never force the early exits of the redundancy step or iterations with an empty fixing.",
 [REF, TPH, GRE, RED, FDAT, SUB], [("cost and column list are always written from the same sources", REF), ("cost of fixed columns accumulated with the column list", FDAT), ("greedy returns the cost of the columns it leaves in the list", GRE)],
 observe=["CftResult.sol.cost"])

prop("P03", "Solution indexes always refer to the caller's columns",
 "Every column index in a solution handed back to the caller is an index of the instance the caller passed, whatever pricing, core selection and fixing was applied in between. Each translation step uses the map that belongs to the reduced instance the index came from.",
 ["inputs", "histories"],
 "every chain of pricing, fixing and refinement steps, and every index of every solution produced along it",
 "Wrong maps only show after at least two nested fixings, or when a step leaves a reduced instance and its map out of step; the tests exercise a few fixed chains.",
 [REF, TPH, FDAT, PRI, CFIX, FCOL], [("core map then fixing map composition", TPH), ("fixing map applied to three-phase solutions", REF), ("map reset together with the instance it describes", REF), ("map update after columns are removed", FDAT)])

prop("P04", "The result is never worse than the warm start or any cover found",
 "The cost of the returned solution is never higher than the cost of the warm start passed in, and never higher than that of any complete cover the algorithm found on the way. The best solution is only ever replaced by a strictly cheaper one.",
 ["inputs", "configurations", "histories"],
 "every warm start, seed, parameter setting and iteration history, including runs stopped by the time limit",
 "The order in which better and worse covers appear depends on the whole run; tests see a few histories, mostly monotone by luck.",
 [REF, TPH, SUB], [("guarded replacement of the best solution", REF), ("guarded replacement inside the three-phase", TPH), ("guarded replacement inside the heuristic phase", SUB)])

prop("P05", "The lower bound and multipliers belong to the complete instance",
 "The lower bound and the multipliers returned to the caller are those computed on the complete instance, before any column was fixed, with one multiplier per row. The bound is the Lagrangian bound, that is the sum of the multipliers plus all negative reduced costs over all columns of that instance and not only those of a restricted subset.",
 ["inputs", "histories"],
 "every instance and every run, however many refinement and fixing iterations follow",
 "A bound taken from a restricted or already fixed instance is usually close to the right one, so a few sampled instances do not reveal it.",
 [REF, TPH, SUB, PRI, CUT], [("dual state recorded in the first iteration only", REF), ("dual state recorded before the first fixing", TPH), ("bound accumulated over all columns when pricing", PRI), ("only bounds obtained from complete pricing are returned", SUB)])

prop("P06", "Multipliers stay non-negative, finite and one per row",
 "Lagrangian multipliers produced by the algorithm are never negative and never exceed a fixed finite bound after a subgradient step, and there is always exactly one multiplier for each remaining row. Rows removed by fixing lose exactly their own multiplier and the others keep theirs in order.",
 ["inputs", "histories"],
 "every instance and every sequence of subgradient steps, perturbations and fixings",
 "Divergence of multipliers needs particular cost structures and many iterations; misaligned multipliers only change the quality silently.",
 [SUB, TPH, CFIX], [("clamped multiplier update", SUB), ("perturbation by a positive factor", TPH), ("multiplier compaction after fixing", CFIX), ("initial multipliers", TPH)])

prop("P07", "The time limit is honoured by every long-running loop",
 "Each unbounded or long loop of the algorithm compares the time elapsed since the start of the caller's timer, in seconds, with the configured limit and stops when it is exceeded. Stopping early still returns the best solution found so far.",
 ["configurations", "schedules"],
 "every time limit, machine speed and point of the run at which the limit expires",
 "Tests cannot choose where the limit expires, and use instances that end long before it.",
 [REF, TPH, SUB, U("Chrono.hpp")], [("limit test in the refinement loop", REF), ("limit test in the three-phase loop", TPH), ("limit tests in the subgradient and heuristic loops", SUB), ("elapsed time converted to seconds", U("Chrono.hpp"))])

prop("P08", "The same seed gives the same result",
 "With the same instance, parameters and seed and no time limit reached, the algorithm performs the same steps and returns the same result. All randomness comes from the generator seeded by the caller, and nothing read from the clock, the environment, uninitialised or address-dependent data influences the search except through the time-limit test.",
 ["inputs", "configurations", "schedules"],
 "every instance and parameter setting and any two runs of the same program",
 "Repeating a run in a test samples one machine state; a dependence on addresses, hash order or clock shows up only elsewhere.",
 [REF, TPH, SUB, U("random.hpp"), U("xoshiro_prng.hpp"), CLI, PYB], [("single generator held by the caller's environment", CFT), ("generator state advanced only by drawing", U("xoshiro_prng.hpp")), ("perturbation is the only consumer", TPH)])

prop("P09", "Verbosity changes what is printed, never what is computed",
 "A message of a given level is printed exactly when the configured verbosity is at least that level. Apart from output, the verbosity level has no influence on any result, and nothing is computed inside a log statement that later code depends on.",
 ["configurations", "inputs"],
 "every verbosity level and every run",
 "Tests run with one or two verbosity levels and do not compare runs across levels.",
 [U("print.hpp"), REF, TPH, SUB, CFIX, PARS, CLI, "src/main.cpp"], [("level test in the print helper", U("print.hpp"))])

prop("P10", "Solving does not touch the caller's data and leaves no state behind",
 "Running the algorithm modifies neither the instance nor the warm start nor the parameters it is given, except for advancing the random generator. Two solves in one process are independent: no mutable global or static state, and every cache held by a functor is reinitialised before it is read.",
 ["histories", "inputs", "programs"],
 "every sequence of calls in one process, on the same or different instances",
 "Tests rarely call twice in one process with instances of different sizes; leftovers from an earlier call show only then.",
 [REF, TPH, GRE, PRI, SUB, CFIX, RED, SCO], [("inputs taken by constant reference and copied", REF), ("setup at the start of each functor call", TPH)])

prop("P11", "Fixing columns yields exactly the residual instance",
 "After fixing a set of columns the remaining instance contains exactly the rows not covered by them, and exactly the columns that still cover some remaining row, with their costs and their remaining rows, renumbered in order. Row view, column view, costs and the maps back to the original instance all describe that same residual instance, and the fixed columns and their total cost are recorded in terms of the original instance.",
 ["inputs", "histories"],
 "every instance and set of columns to fix, repeated any number of times",
 "The consistency check exists only in debug builds and is exercised on a few instances; in-place compaction errors depend on the pattern of removed rows and columns.",
 [FDAT, FCOL, CFIX, INST], [("old-to-new maps", FCOL), ("in-place compaction of columns, costs and rows", FCOL), ("original indexes and costs recorded before removal", FDAT), ("maps to the original instance updated after removal", FDAT)])

prop("P12", "The core instance is a faithful restriction that keeps each row coverable",
 "A core instance produced by pricing contains only columns of the complete instance, each at most once, with unchanged rows and costs and with a map back to the complete instance in the same order. For every row it keeps the columns with the smallest reduced costs, at least the five best or all of them if there are fewer, plus columns of low reduced cost up to a bound proportional to the number of rows.",
 ["inputs", "histories"],
 "every instance and vector of multipliers",
 "Tests price a few random instances and check sizes only; a row losing its last column or a duplicated column needs particular reduced-cost patterns.",
 [PRI, TPH, INST, U("SortedArray.hpp")], [("selection by reduced cost", PRI), ("best columns of each row", PRI), ("tentative initial core", TPH), ("sub-instance and map built from the same list", PRI)])

prop("P13", "Cover counters are exact",
 "After any sequence of reset, add-a-set and remove-a-set operations, the counter of each element equals the number of added minus removed sets containing it. Adding returns how many elements became covered, removing how many became uncovered, and the two redundancy tests answer exactly whether adding would cover nothing new and whether removing would uncover nothing.",
 ["inputs", "histories"],
 "every sequence of operations over every family of sets",
 "Unit tests follow two short sequences; returned counts and tests must be right in every counter state, including zero and one.",
 [U("CoverCounters.hpp")], [("counter updates and return values", U("CoverCounters.hpp"))])

prop("P14", "Removing redundant columns never uncovers a row",
 "The redundancy step only removes columns whose rows are all covered by columns that stay, so a cover stays a cover and a partial cover keeps every row it covered. Every removed column leaves the column list, the pending and complete coverage counts and the cost always describe the same set of kept columns, and the enumeration restores its state on every way back.",
 ["inputs", "histories"],
 "every instance, initial column list and cutoff, including lists with more redundant columns than the enumeration handles",
 "Tests check a few hand-made sets; the failing patterns need more than ten redundant columns or a particular order of removals.",
 [RED, GRE], [("redundant set initialisation", RED), ("heuristic removal", RED), ("bounded enumeration with undo", RED), ("final removal from the list", GRE)])

prop("P15", "The greedy respects its size limit, cutoff and score bookkeeping",
 "The greedy adds one unselected column with the best current score at a time until every row is covered or the size limit is reached, never exceeding the limit and keeping the columns it was given unless they become redundant. A cost below the cutoff is returned only for a list that has exactly that cost, and after each addition the score, uncovered-row count and position of every affected column are those obtained by recomputing them.",
 ["inputs", "histories"],
 "every instance, multipliers, initial list, cutoff and size limit",
 "Scores that drift from their definition only degrade quality; tests check feasibility of a few outputs.",
 [GRE, SCO, U("sort.hpp")], [("main greedy loop", GRE), ("initial and incremental scores", SCO), ("best-score candidate subset", SCO)])

prop("P16", "Indexes read from files are checked before use",
 "No row or column index taken from an instance or solution file is used to address memory unless it has been checked against both ends of the valid range for that instance; a file with an index out of range is rejected with an error. This holds in builds without debug assertions too.",
 ["inputs", "fault_sequences"],
 "every byte sequence given as an instance or initial-solution file in any supported format",
 "The tests contain well-formed files and a few malformed ones; out-of-range values differ per format and per field.",
 [PARS, U("parse_utils.hpp")], [("range checks after each index is read", PARS)])

prop("P17", "Truncated or malformed files end in an error, never in a hang or a guess",
 "Reading a file that ends too early, has missing fields, or lacks a required section terminates and reports an error; data is never invented or repeated to fill the gap. A row that no column covers is reported instead of being passed to the solver.",
 ["inputs", "fault_sequences"],
 "every prefix and corruption of every file in any supported format",
 "Only a few malformed files are tested; truncation at each possible point, in each format, is not.",
 [PARS, U("parse_utils.hpp")], [("end-of-file behaviour of the line reader", U("parse_utils.hpp")), ("header, count and section checks", PARS), ("loop conditions of the section readers", PARS)])

prop("P18", "Each file format is read into the instance it describes",
 "For a well-formed file the parsed instance has the declared numbers of rows and columns, the declared cost for each column, and column j covers row i exactly when the file says so under that format's index base. Row view and column view are transposes of each other.",
 ["inputs"],
 "every well-formed file of every supported format",
 "Tests parse one or two sample files per format and check only some fields.",
 [PARS, INST, U("SparseBinMat.hpp")], [("per-format readers", PARS), ("row view built from the column view", INST), ("sparse column storage", U("SparseBinMat.hpp"))])

prop("P19", "Text is converted to numbers exactly or rejected",
 "A numeric field is accepted only if all of it is a number and its value fits the target type; overflow, underflow, a minus sign on an unsigned value, an empty field and trailing characters of a single-value field are all reported as errors. A consumed number removes exactly its own characters from the text.",
 ["inputs"],
 "every text and every supported numeric target type",
 "The tests try a few literals per type; boundary handling differs per sign and width.",
 [U("parse_utils.hpp"), PARS, CLI], [("checked text-to-number conversion", U("parse_utils.hpp"))])

prop("P20", "Command line options set exactly their own parameter",
 "Each documented option, in short or long form and in any order, sets the one parameter its help text describes from the argument that follows it, using that parameter's type; unknown options and options with a missing value change nothing. No argument outside the given list is read, a missing instance path is an error, and without an output path the solution is named after the instance file.",
 ["inputs", "configurations"],
 "every argument list",
 "Tests pass a few fixed argument lists; a crossed or unreachable option, or a wrong conversion, needs that option to be tried.",
 [CLI, CFT], [("option dispatch", CLI), ("default solution name", CLI), ("help text", CLI)])

prop("P21", "Failures are reported through the exit status",
 "The program exits with success only after it has parsed its input, run, and completely written the solution file; any error on the way, including an output file that cannot be opened or fully written, is reported on the error stream and gives a failure status.",
 ["inputs", "fault_sequences"],
 "every failure of parsing, solving or writing",
 "No test runs the program's entry point, and none injects a write failure.",
 ["src/main.cpp", PARS], [("single try block around the whole run", "src/main.cpp"), ("checked solution output", PARS)])

prop("P22", "Solution files and initial solutions round-trip",
 "A written solution file holds the cost followed by all column indexes, in the form the solution reader accepts, and reading it back gives the same columns. An initial solution is used only if its indexes are valid and it covers every row of the instance, and its cost is always that of its columns under the costs actually solved, including when unit costs are requested.",
 ["inputs", "configurations"],
 "every solution, instance and combination of initial solution and unit-cost option",
 "Tests round-trip one small solution and do not combine initial solutions, formats and unit costs.",
 [PARS], [("solution writer and reader", PARS), ("initial solution and unit-cost pipeline", PARS)])

prop("P23", "Python arguments reach the solver unchanged",
 "Every parameter of the Python solve call is stored into the parameter of the same name used by the solver, and the seed passed actually seeds the random generator. Attributes exposed on the Python classes read and write the native field of that name, and results are exposed under the names the wrapper uses.",
 ["configurations", "programs"],
 "every combination of Python parameters and every attribute used by the wrapper",
 "The Python tests use default parameters on a few instances and never look at whether a parameter has an effect.",
 [PYB, PYS], [("attribute table of the native module", PYB), ("parameter forwarding", PYS)])

prop("P24", "The Python solver object stays consistent across calls",
 "Adding a set returns its index and invalidates the prepared row data; if it introduces a new element the earlier solution is discarded, and otherwise it is offered as warm start to the next solve. Solving always works on fully prepared data, rejected input leaves the instance unchanged, loading a file replaces the instance and any earlier result, and the getters report the latest result or none.",
 ["histories", "inputs"],
 "every sequence of add, load, solve and get calls, including calls that raise",
 "Tests follow a few short histories and never load a file or continue after an exception.",
 [PYS, PYB], [("state flags of the wrapper", PYS), ("instance preparation and element checks", PYB), ("native add method", PYB)])

prop("P25", "Random helpers respect their documented ranges",
 "The canonical generator yields values in [0,1) for every supported generator and floating type, an integer roll stays within its inclusive bounds, a real draw is an affine image of the canonical value between its bounds, and a coin with probability zero never succeeds and with probability one always does. The generators follow the published xoshiro and splitmix definitions.",
 ["inputs", "configurations"],
 "every generator state, bound, probability and type combination",
 "Tests draw finitely many samples, which practically never hit the extreme generator outputs.",
 [U("random.hpp"), U("xoshiro_prng.hpp")], [("scaling of generator bits", U("random.hpp")), ("generator step and seeding", U("xoshiro_prng.hpp"))])

prop("P26", "Ordering, selection and filtering helpers do what they say",
 "Sorting, partial selection and the bounded sorted array order elements by their key with a strict comparison; the bounded array keeps the smallest keys seen, in order. Minimum, maximum, clamp, minimum of a range, existence and universal tests and in-place filtering return exactly the mathematically expected element, value or subsequence.",
 ["inputs"],
 "every sequence, key, bound and predicate",
 "Unit tests use short sequences; ties, full arrays and boundary positions are sampled only.",
 [U("utility.hpp"), U("sort.hpp"), U("SortedArray.hpp")], [("comparators built from keys", U("sort.hpp")), ("bounded insertion", U("SortedArray.hpp")), ("generic helpers", U("utility.hpp"))])

prop("P27", "String and span views stay inside their text and split it correctly",
 "Views never address characters outside the text they were made from; trimming removes exactly leading and trailing white space and splitting yields exactly the maximal runs of non-space characters in order. Comparison is lexicographic with shorter prefixes first, and all six comparison operators agree with it.",
 ["inputs"],
 "every text, including empty and all-space ones, and every position argument in range",
 "Unit tests use a dozen strings; empty views, single characters and boundary positions are where the slips happen.",
 [U("StringView.hpp"), U("parse_utils.hpp"), U("Span.hpp")], [("view operations", U("StringView.hpp")), ("trim and split", U("parse_utils.hpp")), ("spans", U("Span.hpp"))])

prop("P28", "The numeric types of the library can be replaced",
 "The whole library compiles and keeps its meaning when the column-index, row-index and real types are replaced by any supported integer and floating types, including user-defined wrappers. No value of one of these roles is funnelled through a narrower fixed type.",
 ["programs", "configurations"],
 "every supported choice of the three types and every entry point",
 "Tests instantiate two or three combinations and run tiny instances that fit the narrowest type.",
 [CFT, U("custom_types.hpp"), U("utility.hpp"), U("limits.hpp"), U("print.hpp"), PARS, GRE, SUB], [("type aliases and checked casts", CFT), ("native type hook", U("custom_types.hpp"))])

prop("P29", "The headers can be included in several translation units",
 "Every header of the library can be included on its own and in any number of translation units of one program, in debug and release mode, without missing declarations or duplicate definitions.",
 ["programs", "configurations"],
 "every program including any subset of the headers in any order, any number of times",
 "Each test program is a single translation unit, so duplicate definitions and missing includes stay invisible.",
 ["src/*/*.hpp"], [("inline or internal linkage of every function", "src"), ("include guards and self-contained headers", "src")])

prop("P30", "Debug checks never change the result",
 "Assertions and code compiled only in debug builds have no side effect on the data the algorithm uses, so a debug and a release build compute the same result. No memory is addressed through an index that only an assertion bounds where the index comes from outside the library.",
 ["inputs", "configurations"],
 "every input on which debug assertions hold",
 "Comparing builds on a few instances does not show a side effect hidden in a rarely executed check.",
 ["src/*/*.hpp", U("assert.hpp")], [("assert macro and debug-only blocks", U("assert.hpp"))])

prop("P31", "The subgradient schedule is bounded and follows its definition",
 "A subgradient phase performs at most ten iterations per row, the step size is always kept between fixed positive bounds and only changes at the end of each period, pricing periods never exceed their maximum, and the exit test compares the current bound with the one a whole period earlier. The step taken is proportional to the gap between upper and lower bound divided by the squared norm of the violation vector, and the phase stops when that vector is zero.",
 ["inputs", "histories"],
 "every instance and every sequence of lower bounds",
 "The managers have hardly any unit test; a wrong schedule only changes quality and running time.",
 [SUB, SUT], [("step size, exit and pricing managers", SUT), ("subgradient loop", SUB)])

prop("P32", "Time measurements use the right units and a monotonic clock",
 "Elapsed and restarted times are differences of a monotonic clock, in the timer's own unit, and conversions to another unit multiply by the exact ratio of the two units. Restarting measures up to the moment the new interval begins.",
 ["configurations", "schedules"],
 "every pair of units and every moment",
 "Tests sleep for a short time and accept a broad tolerance, so a unit error in an untested pair passes.",
 [U("Chrono.hpp")], [("time conversion", U("Chrono.hpp"))])

prop("P33", "Solutions are close to optimal",
 "On benchmark set covering instances the cost of the returned solution is within a small percentage of the best known value.",
 ["inputs"], "every benchmark-like instance",
 "Tests cannot know optimal values of arbitrary instances.",
 [REF, TPH], [("whole algorithm", REF)])

prop("P34", "Floating-point accumulation stays accurate",
 "Costs, bounds and reduced costs accumulated during a run differ from their exact real values by no more than rounding that is negligible compared with the comparison tolerance.",
 ["inputs", "histories"], "every instance, cost magnitude and length of run",
 "Rounding depends on values and lengths that tests do not reach.",
 [SUB, PRI, RED], [("accumulations in single precision", SUB)])

prop("P35", "Every solve without a time limit terminates",
 "A solve with finite iteration parameters and no time limit always ends after finitely many refinement iterations.",
 ["inputs", "configurations"], "every instance and parameter setting",
 "Termination depends on numeric progress over the whole run.",
 [REF], [("growing fixing fraction", REF)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for p in P: jsonschema.validate(p, s)
print(len(P))
