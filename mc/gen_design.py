#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written sections below, with the bounds that the checks themselves state, the planted bugs of
seeded/*/meta.json and the entries of known_findings.json put in their places."""
import importlib, glob, json, os, sys, warnings
warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [os.path.join(ROOT, "mc"), os.path.join(ROOT, "mc", "checks")]
import build
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
seeded = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")))]

INTRO = """# Deciding switss' guarantees by model checking

## 1. Approach

switss is a sequential library. An "execution" of it is determined by a model, a sequence of queries on it and the answers
of its environment, so model checking it means: *enumerate, completely up to stated bounds, the models, the query sequences
and the environment's answers, run the real code on each of them, and compare every observation with an exact reference*.
No model of switss is checked in its place - the explored transition system is the implementation itself (stateless
exploration; the reference semantics is what is specified). Nothing is sampled and nothing depends on `VERIF_SEED`; the quick tier
is a smaller space that is itself explored completely.

* **Choices of the input.** Every MDP/DTMC over a small alphabet of rows: `d` (Dirac), `h` (1/2,1/2), `t` (1/3,2/3), `w`
  (0.1,0.2,0.7: the floating-point sum is not 1), `e` (1e-9 and the rest), up to a number of states and of state-action
  pairs; every labelling that matters for the property (initial states, target sets, label groups); every support of a
  certificate; every order of the operations of an API up to a depth. On top of the complete small spaces there are
  *structured families* (chains, rings, trees, grids, end components of several shapes, up to a few dozen states; for
  search depth up to 10^5..10^6 states) because some behaviour (recursion limits, two-digit numbers, several blocks)
  needs size rather than variety.
* **Presentations.** A structure reaches the code through state numbering, row order, action numbers, matrix format
  (list, ndarray, dok/csr/csc/coo/lil, with explicit zeros, integer types), which no property may depend on. For the smallest
  structures all covering presentations are used, for the others they rotate.
* **Thresholds.** Where a real threshold is involved the real line is partitioned into the finitely many regions on which
  the specification is constant - the intervals between the values that the subsystems of the form attain - and one
  representative per region is used (plus 0, 1 and, where exactness is claimed, the values themselves).
* **Choices of the environment.** Everything nondeterministic that is not an input sits behind a seam of the harness that
  enumerates it: statuses/values of each solver call (C22, C29), the answers of libc `rand()` behind the treaps (C14, C16;
  by a preloaded `rand` that answers from a script), results of a minimisation method (C23), the `prism` process (C25),
  `stormpy` objects (C26), orders of a tree partition (C28).
* **Reference.** `mc/ref.py`: exact rational arithmetic; probabilities and rewards by policy iteration (validated against
  all memoryless schedulers by `mc/selftest.py`), minimal witnesses by enumeration of all subsets of states, maximal end
  components by iterated removal (two implementations), LP/MILP optima by Fourier-Motzkin elimination (C21). No reference
  shares code with switss.

**Why this reaches what the tests cannot.** The 10 stable tests call the API on a handful of example models, all of them
with rows in state order, one initial state, no labels on unusual states, and compare results of the code with results of
the code. The enumeration contains every small model, so that every *combination* of structural features (end component x
target x row order x removed successors x ...) within the bounds occurs, and each is judged by an independent semantics.
That this is the right scale was confirmed by what it found: %(nfixed)d defects of the original tree, all repaired (section 6).

## 2. Machinery

| file | role |
|---|---|
| `run.sh <ID>` / `run.sh replay <file>` | one check / one recorded violation |
| `mc/build.py` | makes /repo's current working tree importable: Python sources directly, the cython extensions in place if the build's own stamp says that they were made from exactly the current .pyx/.pxd files, otherwise compiled in a scratch copy that is removed afterwards; nothing is written to /repo. `SWITSS_REPO` selects another tree (planted bugs, mutants) |
| `mc/harness.py` | 8 workers take cases from a shared counter; a case that hangs (CPU time of the worker, so a loaded machine does not count) or kills the worker is a violation of its own and exploration goes on; violations are re-run in a fresh process before they are reported (a violation that does not recur is reported as such, not as an alarm); evidence with numbers of cases, executions, distinct states, outcomes; `MC_STRIDE`, `MC_DEADLINE`, `MC_WORKERS` for experiments only |
| `mc/models.py`, `mc/ref.py`, `mc/common.py` | enumeration of models, exact reference, reference of reachability forms |
| `mc/checks/cNN.py` | `cases(tier)` enumerates, `check(case)` runs the real code and compares |
| `mc/fakes/` | stand-ins for gurobi, graph_tool, dd, more_itertools (sections C28, C29) |
| `mc/gen_*.py` | generate properties.jsonl, MANIFEST.json and this file |
| `tools/plant.py`, `tools/mutate.py` | planted bugs and mutants (section 5) |

All checks share the property that a case fails only through an observable difference to the reference (or an exception
where the property promises an answer); none looks at source text, names of private helpers or call counts - with two
exceptions that cannot be avoided: C16 (and C30) compiles a driver against `treaps.pxd` (the treap has no Python interface), and
C28 compiles `tree_decomp.pyx` against stand-ins. Both report "no answer" through a missing interface only if that
interface itself is removed.

Every check reports in its evidence file: cases in the space and cases executed (equal, or the run is not exhaustive and
says so), executions of real code, distinct abstract states, outcome histogram (e.g. how many thresholds were feasible),
so that a vacuous run is visible.

No hooks were needed in /repo: all seams exist at module level (pulp's solver classes, `subprocess`, duck-typed stormpy,
preloaded `rand`).

## 3. Properties
"""

# per property: oracle, why, cost (quick seconds on 8 cores), notes
TEXT = {}
def T(i, **k): TEXT["C%02d" % i] = k
T(1, what="`ReachabilityForm.reduce` is run on every model x initial state x target set x presentation; minimal and maximal probability of the initial state and of every kept state, computed exactly from the returned matrix, must equal the exact values of the original model.",
  oracle="policy iteration on the original model with targets absorbing; the probabilities of the reduced model come from its own matrix (that pr_min/pr_max compute them is C04).", cost=16,
  reach="errors of the reduction need a particular cut (a target behind a target, an initial target, a state that only returns to the initial state, a row of sum 1-2^-53)",
  notes="Models with 1e-9 rows are not judged here: the conditioning of the floating-point matrix makes exact values differ (a false alarm while building); their structure is judged in C02.")
T(2, what="The same executions; the returned system is compared entry by entry with a reference reduction: conditions of the form, the maps, probabilities, fail transitions, labels, action labels, rewards, and a snapshot of the original model.",
  oracle="forward search stopping at targets, backward search from targets, row-wise completion (mc/ref.py).", cost=21, reach="as C01, plus the carrying-over of labels and rewards, which no probability shows")
T(3, what="`assert_consistency` and the constructor on every small labelled model, and on every single-step mutation of correct forms (labels moved, goal and fail swapped, rows permuted, actions added, transitions redirected, parts cut off).",
  oracle="a predicate written from the class documentation (mc/common.py `rf_triple_problems`).", cost=25, reach="an accepting bug needs a model that violates exactly one condition; the mutations are exactly those",
  notes="A first planted 'two loops' variant turned out to be no bug (the model stayed rejected for another reason).")
T(4, what="`pr_min`, `pr_max`, `max_z_state` of every form with each installed solver, every state compared.", oracle="exact values by policy iteration; tolerance 1e-6.", cost=22,
  reach="values of states that are not visited by optimal schedulers, forms with end components, permuted rows")
T(5, what="`A`, `to_target`, `fark_*_constraints` for thresholds in changing order, `max_z_state_action`, `max_y_state_action`, `max_y_state`.", oracle="the documented system built from the reference matrix; systems are equal iff they have the same normalised inequalities, otherwise compared on a grid of vectors; optimal values exact.", cost=15,
  reach="rows not in the order of states, cached systems with another threshold")
T(6, what="`check_farkas_certificate` on a grid of vectors x modes x comparisons x thresholds (at, around, away from the value) x tolerances, plus every single-coordinate perturbation of exact certificates by 0.2, 5 and 1000 tolerances.", oracle="certificate conditions of FJB19 table 1 evaluated exactly; vectors whose violation is between tol/3 and 3 tol are not judged. Independently of that, an accepted vector must make the claim about Pr true.", cost=16,
  reach="soundness of a checker is a statement about all vectors: only enumeration finds the vector a broken condition lets through")
T(7, what="`generate_farkas_certificate` for all forms, modes, comparisons, thresholds at both sides of the value (distance 0.002 and more), solvers in turn.", oracle="truth of the claim by exact values; validity of the vector by the conditions of C06.", cost=22, reach="completeness needs models whose interior points have particular signs; with end components soundness plus the claimable kinds are demanded, and for min <= a certificate whenever one exists")
T(8, what="`MILPExact().solve` for all forms, modes, one threshold per region.", oracle="all subsets of states, exact value of each; feasibility, minimum, number of states of the returned subsystem, its own exact value, validity of the certificate.", cost=26,
  reach="minimality is a statement about all subsystems; wrong big-M bounds or integrality noise only show on particular forms", notes="Max mode with proper end components needs gurobi indicator constraints: covered in C29 through the stand-in.")
T(9, what="`MILPExact`/`QSHeur` with label lists: all pairs of label sets (overlapping, nested, empty, on goal and fail) on the small forms, rotating assignments on the others.", oracle="all subsets of states, number of listed labels of each.", cost=59, reach="states with several labels, labels on goal/fail/no state, groups whose indicator is not selected")
T(10, what="All iterates of `QSHeur` for 4 initializers x 2 updaters x 1..5 iterations x solvers.", oracle="exact values of the subsystems, number of positive-weight states/pairs, all-subset minimum as lower bound.", cost=35,
  reach="an iterate is only wrong in late iterations or for weights near the updater's tolerance", notes="GLPK's presolver takes right-hand sides below 1e-3 as zero: thresholds below 0.01 are not given to glpk. A certificate's value and its vector are compared with a noise margin of 1e-12.")
T(11, what="`Subsystem` for every support (every subset of states / of state-action pairs), both forms: mask, materialised system, labels, rewards, monotonicity, unchanged supersystem.", oracle="restriction built from the reference rows.", cost=28, reach="certificates from solvers have few supports; this enumerates all")
T(12, what="`RewardReachabilityForm.reduce/fromsystem`, `rew_min/max_z_state`, `rew_max`, `max_y_state_action`; rejection of unsuitable models; consistency assertions on every single change of suitable models.", oracle="exact expected rewards by policy iteration.", cost=35, reach="reward assignments x structures; rejection needs every near-miss")
T(13, what="`MILPExact`/`QSHeur` on reward forms, one threshold per region.", oracle="all sets of states, expected reward of the restriction.", cost=25, reach="as C08; bounds valid for probabilities are not for rewards")
T(14, what="`maximal_end_components` (twice per model) for all structures x answers of `rand()`; data of reachability forms.", oracle="iterated removal, two implementations agree (selftest).", cost=15,
  reach="the result depends on a random search-tree shape: a test sees one shape, the check all weak orders of priorities for small models and all periodic patterns for larger ones", notes="One false alarm: rows with duplicate targets had to be merged by the harness (they are no valid input).")
T(15, what="`successors`, `predecessors`, `reachable_mask` (all from-sets x blocklists x directions), `actions_by_state`, `strongly_connected_components`.", oracle="reference matrix; reachability by closure.", cost=23, reach="from-sets that meet the blocklist, parallel edges, explicit zeros, deep paths (150 000 states)")
T(16, what="Treap insertions: every key sequence x every weak order of priorities (ties included).", oracle="Python set.", cost=2, reach="rotations depend on the order of priorities, enumerated through the scripted `rand()`",
  notes="No planted bug is kept: the existing treap tests use random data and catch nearly every change that survives compilation.")
T(17, what="Every operation sequence (add, remove, look-up on either direction) up to a depth on `InvertibleDict`, label operations on models and on models built from each other's maps.", oracle="a plain relation.", cost=15, reach="lazy inverses: bugs need a particular interleaving of look-ups and updates",
  notes="The hang detection of the harness used wall-clock time at first and produced a flake here; it uses CPU time now.")
T(18, what="save -> from_file -> save -> from_file of models, forms and subsystems.", oracle="own reader of .tra/.lab; comparison with the structure.", cost=7, reach="digits of probabilities, rows not in state order, labels with punctuation, >10 labels")
T(19, what="Constructors on all small matrices, reward vectors, action maps.", oracle="documented conditions evaluated with exact sums.", cost=3, reach="boundary values: nan, inf, off by 1e-7 or 1e-12, last rows")
T(20, what="All ordered pairs of queries (and triples of cheap ones) on a fresh form, answers compared with those on a fresh form; snapshots of form, model, matrices and earlier answers.", oracle="the same query on a freshly built form.", cost=34, reach="caching and aliasing are history properties",
  notes="Operations in which the caller itself mutates a returned matrix were dropped: nothing promises that they are harmless.")
T(21, what="All sequences of building operations on MILP/LP, then solve; `from_coefficients` on all small matrices.", oracle="Fourier-Motzkin over the rationals, integers enumerated.", cost=11, reach="states of the builder (removed constraint, replaced objective, unused variable) that no single test builds",
  notes="Solver quirks excluded by rule, not by input: CBC 2.10.3 reports an optimum of 1e20 for some unbounded problems; problems without constraints are rejected by CBC's reader; glpk may answer 'undefined' where there is no optimum.")
T(22, what="Fault injection: at every solver call of an operation, the truthful answer or {not solved, infeasible, unbounded, undefined} x {no values, zeros, true values} or a solver exception; depth-first over all choice sequences with up to 2 faults.", oracle="rules of the property on the recorded call sequence.", cost=32, reach="crash/fault points: the tests never see a failing solver",
  notes="How many auxiliary calls (upper bounds, initial weights) an operation makes is taken from a fault-free dry run at a low threshold, so a different number of them is no alarm.")
T(23, what="`benchmarks.run` with every behaviour of a scripted method over threshold ranges, options, lists of methods and modes.", oracle="the documented loop.", cost=3, reach="sequences of failures over thresholds",
  notes="switss/benchmarks counts as benchmark code: it must not be changed and no planted bug in it counts; its two defects are known findings.")
T(24, what="`bin/switss` rf, info, minimize, certify, subsystem, render in command sequences over all small models; every file read by an independent reader.", oracle="exact references as in C01, C06, C08, C11.", cost=35, reach="options x model features; files of several certificates",
  notes="DTMC files: rows are by state, not by file order (a false alarm of an earlier version). By symmetry state 0 is initial and target sets are enumerated up to renaming.")
T(25, what="`prism_to_tra`, `from_prism_model` with a scripted `prism` on the PATH: all argument shapes x all ways in which it ends; `parse_label_file` on all small label relations.", oracle="recorded arguments and model text; label relation.", cost=5, reach="files without final newline, non-UTF-8, failing processes")
T(26, what="`MDP/DTMC.from_stormpy`, choice models, on duck-typed sparse models with all small structures and label relations.", oracle="the model that the object denotes; exact reachability probabilities for choice models.", cost=8, reach="stormpy is not installed: no test runs this code at all",
  notes="Arbitrary choice numbering was rejected as unrealistic (stormpy numbers choices consecutively by state); a planted bug that needed it was deleted.")
T(27, what="`digraph` of models, forms and subsystems: DOT text parsed and compared with the graph, labels and styles.", oracle="reference graph.", cost=5, reach="supports x styles x matrix formats", notes="graphviz leaves a label `0\\n` unquoted; the parser accepts it.")
T(28, what="`TreeAlgo` over every directed tree partition, every admissible order, known upper bounds, one threshold per region and the exact values.", oracle="all subsets of states.", cost=45, reach="memory errors and missed witnesses need particular partitions; 10 defects were found here",
  notes="graph_tool, dd and more_itertools are not installed; `mc/fakes/treelib` implements the few documented functions that are used (partition graphs, BDD models, peekable). tree_decomp.pyx is compiled from the current sources. Memory errors are decided by C30.")
T(29, what="The guarantees of C04, C07-C10, C13, C21 with `solver='gurobi'`/`'cplex'`.", oracle="as there.", cost=28, reach="neither solver is installed: no test runs this code",
  notes="`mc/fakes/gurobi.py` implements the documented gurobipy interface over HiGHS, indicator constraints by branching; pulp's command-line classes are redirected to cbc. Trusted: that the real solvers behave as documented. INF_OR_UNBD is mapped to 'undefined' by switss; this is left as it is.")
T(30, what="The executions of C14, C15, C16, C28, and iterators that outlive their model, repeated on native code compiled with the address sanitizer and with `malloc`/`free` redirected to counting functions. Results are not judged; memory errors (the process ends with a report) and blocks that stay allocated each time the same is repeated are.",
  oracle="address sanitizer; number of live blocks before and after (objects kept by caches appear once only, so a case counts only if the number grows in three repetitions).", cost=75,
  reach="no result changes when an array is one element short or a block is not released; 3 leaks were found here",
  notes="If the sanitizer runtime could not be loaded on a machine, the check falls back to counted allocations and says so in its evidence. Calls of the tree algorithm that end in an exception or a timeout are not judged for leaks.")

T(31, what="`benchmarks.render`: all records with up to 3 thresholds and 3 results per threshold (full, or cut short by a failure at any position; empty runs), and records made by `benchmarks.run`, times all plot options; curves read from the matplotlib axes.", oracle="the records, filtered, scaled and capped as documented.", cost=45, reach="records with a timeout in the middle of a run, subsets of results, several plots on one axes",
  notes="The title is only judged if it is given (the documentation promises the method's description otherwise, the code sets none: cosmetic, left). Its three defects (records with fewer results at some threshold, empty runs) are known findings, since switss/benchmarks counts as benchmark code that must not be changed; they are recognised by input class and exact wrong outcome.")
T(32, what="`underlying_graph`, `quotient`, `interface` on all directed graphs with up to 3 vertices (4 and 5 with few edges), all partitions in several presentations, all pairs of subsets.", oracle="the definitions, on the dense matrix.", cost=14, reach="graph_tool is not installed: no test imports these functions",
  notes="With `mc/fakes/treelib` as for C28. `interface` could never have worked (undefined name): repaired.")
T(33, what="Weights of all initializers on all small forms x groupings, updates on all small result vectors, and runs of the real QSHeur with scripted objective functions, updates and constraints.", oracle="exact probabilities and expected frequencies; optimum of the documented LP of each iteration (rows built exactly, solved by HiGHS).", cost=31, reach="a wrong weight or a forgotten constraint still yields valid witnesses",
  notes="Which optimal frequency vector of an MDP is used is the solver's choice: recovered from the singleton groups, checked for optimality, and required to be the same for all groupings.")
T(34, what="`find_interior_point` on all small systems x nonnegativity x variables fixed to zero x solvers x matrix formats.", oracle="Fourier-Motzkin over the rationals.", cost=11, reach="flags for systems whose interior is empty or which are infeasible by a margin")
T(35, what="For small forms: every public operation x every invalid and boundary value of each argument; every building operation of MILP/LP x every invalid operand, in every small state of the problem.", oracle="the documented domains; a snapshot before and after; afterwards a valid request is answered correctly.", cost=43, reach="lost or off-by-one validity checks: tests only make valid requests",
  notes="Infinite vectors are judged only against clearly false claims (a self loop may carry an infinite frequency). Operations that ignore an argument (AllOnesInitializer its mode) are not asked to validate it.")

AFTER = """
## 4. Precision, tolerances and false alarms

A check must stay quiet on behaviour-preserving edits, so no comparison depends on solver vertices, orders of sets,
call counts or texts of messages. Rules that came out of false alarms while building are given with the properties above
(C01, C03, C06, C10, C12, C14, C17, C20-C22, C24, C26, C27); in addition: C12 relative tolerance 2e-6 (glpk prints six
digits: 1e-5); C17 clones of DTMCs keep no action labels, which nothing promises; C18 identifies the states of a
subsystem by labels; C19 does not judge sums that are off by 2e-10..5e-9 (the documented tolerance is 1e-9).
C09: the statement once claimed that the heuristic reports exactly the labels in use; the LP solver leaves rounding noise on labels that are
not needed, so it now says so up to that noise (a false alarm, corrected in the property). None of these is listed as a known finding.

## 5. Planted bugs and mutation

`tools/plant.py` builds `seeded/<id>` from a spec (edits, demo), and verifies in a scratch copy: applies, compiles, stable
tests pass, demo passes without and fails with it, and which checks report it. Each was written from the property text
and the code before looking at whether the check would find it; those marked (*) were missed at first and led to a stronger
check.

| planted bug | property | what it needs | caught by |
|---|---|---|---|
%(seeded)s

Missed at first (*): c26-tiny-probabilities-dropped (led to rows with 1e-9 in C26, then in C02, C14, C15),
c28-distance-of-first-input (led to partitions whose blocks have inputs at different distances),
c12-target-reached-from-every-state, c14-tiny-leaving-probability (its predecessor was equivalent), c09-one-label-per-pair,
c20-remembered-frequencies-are-overwritten (led to initializers, drawings and reductions among the queries of C20).
Properties without a planted bug have their reason above, or every change found for them is one of another property's.

`tools/mutate.py` applies first-order mutants (operators, constants, conditions, deleted statements, loop ranges, return values) to a file, drops those
that do not compile or fail the stable tests, and runs the checks of that file on the rest. Survivors are triaged by
hand; those that were not equivalent led to: C03 (rows of goal/fail at arbitrary places), C12 (acceptance of every single change),
C14 (MEC data of forms), C17 (maps handed from model to model), C19 (reward vectors longer than the number of states).
%(mutation)s

## 6. Findings

Genuine defects of the original tree (base b59221d) found by the checks and repaired, one `fix:` commit each
(known_findings.json, status `fixed`; a fixed entry suppresses nothing):

| property | commit | what failed |
|---|---|---|
%(fixed)s

Known findings (status `known`, not repaired because switss/benchmarks counts as benchmark code that must not be changed):

%(known)s

Defects seen but not judged by a property: DTMC constructors drop label_to_actions; 
`add_successor` is quadratic in the degree and the MEC search quadratic in the number of states (performance only); `bin/switss` reports an AttributeError as "too few
arguments".

## 7. Limits

Everything is bounded: "holds" means on every execution of the stated space. The small-scope spaces are complete in
structure but coarse in probabilities (five kinds of rows); numerical behaviour on badly conditioned models is only
touched (1e-9 rows). Real prism, stormpy, gurobi, cplex, graph_tool and dd are absent; their interfaces are trusted as
documented. Performance is not a property. No property had to be declared not applicable to the technique.
"""
def bounds(pid, tier):
    m = importlib.import_module(pid.lower()); return m.bounds(tier)
MUT = open(os.path.join(ROOT, "tools", "mutation_notes.md")).read() if os.path.exists(os.path.join(ROOT, "tools", "mutation_notes.md")) else ""
def main():
    out = [INTRO % dict(nfixed=sum(k["status"] == "fixed" for k in known))]
    for p in props:
        t = TEXT[p["id"]]; q, th = bounds(p["id"], "quick"), bounds(p["id"], "thorough")
        out.append("### %s - %s\n" % (p["id"], p["title"]))
        out.append("*Explored:* %s\n\n*Oracle:* %s\n\n*Bounds (quick):* %s.\n\n*Bounds (thorough):* %s.\n\n*Cost:* about %s s (quick, 8 cores). *Beyond tests:* %s." % (t["what"], t["oracle"], q, th if th != q else "the same", t["cost"], t["reach"]))
        if t.get("notes"): out.append("\n*Notes:* " + t["notes"])
        s = [i for i, m in seeded if m["property"] == p["id"]]
        if s: out.append("\n*Planted bugs caught:* " + ", ".join(s))
        out.append("")
    out.append(AFTER % dict(seeded="\n".join("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m["property"]) for i, m in seeded),
        fixed="\n".join("| %s | %s | %s |" % (k["property"], k["commit"], k["what"]) for k in sorted(known, key=lambda k: k["property"]) if k["status"] == "fixed"),
        known="\n".join("* %s: `%s` - %s" % (k["property"], k["key"], k["what"]) for k in known if k["status"] == "known"), mutation=MUT))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
if __name__ == "__main__": main()
