#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements can be reviewed and edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(obs), "hook_needed": hook}})

p("C01", "Index ranges behave as half-open integer intervals",
  "A range of start s and non-negative length d denotes the integers s..s+d-1: membership, equality, end, translation and the position of one range relative to another agree with that set for every pair of ranges. Containment holds exactly when every index of the other range, and its start even when it is empty, belongs to the range; two non-empty ranges are reported as intersecting exactly when they share an index.",
  ["inputs"], "all starts and lengths (with no machine overflow), including empty and touching ranges",
  "The range test samples a handful of pairs; off-by-one errors at touching, nested or empty ranges need all integers.",
  ["include/tvm/Range.h"], [("Range", "include/tvm/Range.h")], obs=["contains", "intersects", "relativeRange", "operator+/-"])

p("C02", "Counted union of index ranges is exact after any history",
  "After any sequence of successful range additions and removals, an index is reported as covered exactly when it was added more often than removed; the merged output is the list of maximal disjoint intervals in increasing order, and the split output partitions the same indices further wherever the multiplicity changes. Each operation reports a change exactly when the merged output changed, removing an index that is not covered is refused and leaves the content unchanged, and outputs never reflect an older state.",
  ["histories", "inputs"], "all sequences of additions and removals of integer ranges, interleaved in any order with queries of either output",
  "The tests replay some fixed sequences; an error in the handling of coinciding limits shows up only for particular combinations of touching, nested and repeated ranges and of cached outputs.",
  ["include/tvm/internal/RangeCounting.h", "src/internal/RangeCounting.cpp"],
  [("ordered list of limits and cuts", "src/internal/RangeCounting.cpp"), ("lazy recomputation flags", "src/internal/RangeCounting.cpp")],
  state=[("limits", "ordered opening/closing limits and cuts whose running depth is the multiplicity", "include/tvm/internal/RangeCounting.h")],
  obs=["add", "remove", "ranges", "maxCount", "empty"])

p("C03", "Space dimensions and products are consistent",
  "Every constructible space has consistent manifold, representation and tangent dimensions (Euclidean: all equal; rotations 3/4/3; rigid motions 6/7/6) and is reported Euclidean exactly when it is. Products add the three dimensions, are Euclidean exactly when both factors are, and equality and the inclusion comparison agree with the dimensions and types.",
  ["inputs"], "all dimensions and space types, all pairs of spaces",
  "Tests build a few spaces; the dimensions are used everywhere to size Jacobians and values, for arbitrary products.",
  ["include/tvm/Space.h", "src/Space.cpp"], [("Space", "src/Space.cpp")], obs=["size/rSize/tSize", "operator*", "operator==", "operator<="])

p("C04", "Variables, derivatives and sub-variables form one family sharing values",
  "Differentiating a variable n times yields, whatever the order of the requests, a unique derivative of the right order and size, and primitive/derivative relations, base primitive and super-variable are mutually consistent. A sub-variable, at any derivative order, is a view of the segment of its super-variable given by its accumulated shift: writing through one is reading through the other, creating views or derivatives never alters existing values, and containment and intersection between variables hold exactly when they do for their segments of the same super-variable.",
  ["histories", "inputs"], "all variables, derivation orders, nestings of sub-variables and orders of creation and value setting",
  "Tests build a few small families in one order; aliasing and creation-order effects depend on the whole history.",
  ["include/tvm/Variable.h", "src/Variable.cpp"], [("dot", "src/Variable.cpp"), ("subvariable", "src/Variable.cpp"), ("memory sharing", "src/Variable.cpp")],
  obs=["dot", "subvariable", "subvariableRange", "contains", "intersects", "value", "set"])

p("C05", "Variable vectors give each variable its contiguous slot after any history",
  "A vector of variables always holds pairwise non-overlapping variables in order of insertion; the slot of each (and of any part of it) is the concatenation offset, slots of distinct members are disjoint and cover the total size exactly, and this remains true after any additions, removals and clearings, for variables shared by several vectors. Adding something already covered changes nothing, adding something that partly overlaps is refused without effect, and reading or writing the concatenated value agrees with the members' values.",
  ["histories", "inputs"], "all histories of add, remove, clear, copy and mapping queries on any number of vectors sharing variables and sub-variables",
  "Tests follow some short scripts; cached slots must be invalidated by every possible later change.",
  ["include/tvm/VariableVector.h", "src/VariableVector.cpp", "src/Variable.cpp"],
  [("start-index cache with stamps", "src/VariableVector.cpp"), ("getMappingIn", "src/Variable.cpp")],
  state=[("startIn_", "cached offset of a variable per vector, with the stamp it is valid for", "include/tvm/Variable.h")],
  obs=["getMappingIn", "totalSize", "indexOf", "value", "set", "contains"])

p("C06", "Counted variable union reflects exactly the parts still present",
  "After any additions and removals of variables and sub-variables, the resulting variable vector covers exactly the parts added more often than removed, with pieces separated according to multiplicity when splitting was requested, and it is current at every query. The disjointness query answers whether no index was counted twice, and a piece flagged as simple stems from a single addition.",
  ["histories", "inputs"], "all histories of additions and removals of variables of any family, with queries in between, with and without splitting",
  "Tests query after a few fixed scripts; stale results depend on where queries fall in the history.",
  ["include/tvm/internal/VariableCountingVector.h", "src/internal/VariableCountingVector.cpp"],
  [("per super-variable range counting and up-to-date flag", "src/internal/VariableCountingVector.cpp")],
  obs=["variables", "isDisjointUnion", "simple"])

p("C07", "Matrix property annotations are sound and survive algebra",
  "From the annotations given at construction only true consequences are deduced, contradictory annotations are refused and consistent ones accepted. The annotations computed for sums, differences, products and scalings of annotated matrices hold for every pair of matrices satisfying the operands' annotations, and computing them never fails on consistent operands.",
  ["inputs", "configurations"], "all combinations of shape, positiveness, invertibility and constancy annotations, all matrices satisfying them, all scalars",
  "Tests sample a few combinations; soundness is a statement about all matrices with the annotated structure.",
  ["include/tvm/internal/MatrixProperties.h", "src/internal/MatrixProperties.cpp"],
  [("deduction rules", "src/internal/MatrixProperties.cpp"), ("property algebra", "src/internal/MatrixProperties.cpp")],
  obs=["is... queries", "operator+", "operator-", "operator*"])

p("C08", "Dependency ordering is a valid topological order or an error",
  "For every directed graph, the computed order lists each node exactly once with every node after all nodes it depends on, the grouped order partitions the nodes likewise, and a cycle is always reported as an error instead of an incomplete or invalid order. Reducing a graph yields exactly its strongly connected components and the induced acyclic graph between them.",
  ["inputs"], "all finite directed graphs, any insertion order of nodes and edges, after removals",
  "Tests contain a handful of graphs; a dropped or misplaced node needs a particular topology.",
  ["include/tvm/graph/internal/DependencyGraph.h", "src/graph/DependencyGraph.cpp"],
  [("depth-first ordering", "src/graph/DependencyGraph.cpp"), ("strongly connected component reduction", "src/graph/DependencyGraph.cpp")],
  obs=["order", "groupedOrder", "reduce"])

p("C09", "The update plan executes every needed update once and after what it needs",
  "For any network of nodes with inputs, outputs, updates and dependencies declared between them, executing the plan built for a set of requested outputs runs every update these outputs need, directly or through other nodes, exactly once, each after all the updates it depends on, and runs nothing else. Rebuilding the plan after inputs were added or removed reflects the current requests only.",
  ["configurations", "histories"], "all acyclic networks of nodes and declared dependencies, all sets of requested outputs and sequences of changes of these",
  "Tests run a few small networks; ordering and completeness errors depend on the shape of the network.",
  ["include/tvm/graph/CallGraph.h", "src/graph/CallGraph.cpp", "include/tvm/graph/abstract/Node.h", "include/tvm/graph/internal/AbstractNode.h", "include/tvm/graph/internal/Inputs.h"],
  [("plan construction", "src/graph/CallGraph.cpp"), ("dependency registration", "include/tvm/graph/internal/AbstractNode.h")],
  obs=["update", "execute"])

p("C10", "Assembled problem data is equivalent to the source constraint",
  "Whatever the convention of a source linear constraint (equality, one-sided or two-sided, right-hand side zero, as given or opposite) and the convention of the solver's target rows or bounds, the assembled matrix and vectors describe the same feasible set, or the same weighted objective scaled by scalar and per-row weights, including for one constraint written as two stacked opposite ones and for missing bounds. Conventions that cannot express the source are refused.",
  ["inputs", "configurations"], "all source types and right-hand side conventions, all compatible target conventions, all matrices, bounds and weights, any subset and order of variables",
  "The conversion is a table of many sign and swap cases of which the tests execute some with particular numbers.",
  ["include/tvm/scheme/internal/Assignment.h", "include/tvm/scheme/internal/Assignment.hpp", "src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp", "include/tvm/scheme/internal/AssignmentTarget.h"],
  [("assignment construction", "src/scheme/Assignment.cpp"), ("target views", "src/scheme/AssignmentTarget.cpp")],
  obs=["run", "target matrices and vectors"])

p("C11", "Compiled copy operations compute exactly the declared weighted transformation",
  "A compiled matrix or vector copy operation writes into its destination, at each run and with the current content of its sources, exactly the declared combination: copy, add, subtract, or element-wise minimum/maximum, of the source, its opposite, scaled by a scalar or by a diagonal or multiplied by a matrix, with constant or absent sources behaving as constants or zero. Nothing outside the destination is modified.",
  ["inputs", "configurations"], "all combinations of operation, weighting, multiplication and source kinds, all sizes and values, repeated runs",
  "The template has dozens of combinations; tests instantiate them on one or two random matrices and sizes.",
  ["include/tvm/scheme/internal/CompiledAssignment.h", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h"],
  [("assignment policies", "include/tvm/scheme/internal/CompiledAssignment.h")], obs=["run"])

p("C12", "Task dynamics compute their defining formula",
  "The value produced by each task dynamics is its defining expression of the current function value, velocity and right-hand side, for scalar, diagonal and matrix gains alike: zero order terms, proportional and proportional-derivative feedback with default critical damping, reach in one step, reference and feed-forward terms, component-wise clamping and velocity damping. The declared order matches, gains given later take effect, and inconsistent gains, sizes or constraint types are refused.",
  ["inputs", "configurations"], "all function values, velocities, right-hand sides, gains and parameters in their admissible domain",
  "Tests check a few numeric instances of each dynamics and gain type; signs, factors and branches need all inputs.",
  ["src/task_dynamics", "include/tvm/task_dynamics"],
  [("updateValue of each dynamics", "src/task_dynamics"), ("clamping and feed-forward wrappers", "include/tvm/task_dynamics/Clamped.h")],
  obs=["value", "order", "gains"])

p("C13", "A linearized task constraint is the task dynamics applied to the task function",
  "For every task, the linear constraint built for it bounds, at every update, the derivative of the task function of the order of its dynamics by the value of the dynamics: its matrices are the function's Jacobians with respect to the variables differentiated that many times, and its bounds are the dynamics value minus the terms that do not depend on those variables. Lower, upper, two-sided and equality tasks yield the bound on the matching side, for first and second order dynamics.",
  ["inputs", "configurations"], "all task types and dynamics of every order, all function values, Jacobians and velocities",
  "Tests evaluate two or three tasks with fixed numbers.",
  ["src/constraint/LinearizedTaskConstraint.cpp", "include/tvm/constraint/internal/LinearizedTaskConstraint.h", "src/Task.cpp"],
  [("updates of l, u, e per order", "src/constraint/LinearizedTaskConstraint.cpp")], obs=["jacobian", "l", "u", "e", "variables"])

p("C14", "Linear functions and constraints are A x + b with the right bounds and shapes",
  "A linear function of any number of variables evaluates to the sum of its matrices times the current variable values plus its constant, its velocity to the same sum over the variables' derivatives, and its higher-order drift terms to zero. A linear constraint exposes exactly the bound vectors its type and right-hand side convention call for, evaluates to the sum of its matrices times the current values, and data of wrong size or for unknown variables is refused without effect.",
  ["inputs", "configurations"], "all numbers and sizes of variables, matrices, constants and values, all constraint types and conventions",
  "Tests use small random instances with one or two variables.",
  ["src/function/LinearFunction.cpp", "src/function/BasicLinearFunction.cpp", "src/function/IdentityFunction.cpp", "src/constraint", "src/internal/FirstOrderProvider.cpp"],
  [("updateValue/updateVelocity", "src/function/LinearFunction.cpp"), ("bound storage", "src/constraint/RHSVectors.cpp")], obs=["value", "velocity", "jacobian", "b", "l", "u", "e"])

p("C15", "Substituting variables preserves the solutions of the equality constraints",
  "For every declared substitution of admissible rank, the values computed for the substituted variables from the remaining and additional ones satisfy, together with the additional constraints, exactly the original equality constraints, for chained and interdependent substitutions as well. Ill-formed substitutions (non-equality, overlapping or absent variables, too many equations, wrong rank) are refused.",
  ["inputs", "configurations"], "all sets of substitutions, with any dependencies between them, constraint right-hand sides and matrices of the declared rank",
  "Tests use a few random matrices and dependency patterns.",
  ["src/hint", "include/tvm/hint"],
  [("calculators", "src/hint/DiagonalCalculator.cpp"), ("substitution unit", "src/hint/SubstitutionUnit.cpp"), ("dependency grouping", "src/hint/Substitutions.cpp")], obs=["updateSubstitutions", "updateVariableValues", "additionalConstraints"])

p("C16", "Solving requirements are validated and scheme limits are enforced",
  "Requirements carry exactly the values given (defaults otherwise), negative priorities and weights are refused, and converting between requirement forms keeps values and default flags while every later change of a value notifies its subscribers. A resolution scheme accepts a constraint exactly when its level allows the constraint type and violation measure, and handles or refuses priorities beyond its number of levels as declared.",
  ["inputs", "configurations"], "all priorities, weights, violation measures, level tables and constraint types",
  "Tests check a few accepted and refused values.",
  ["include/tvm/requirements", "include/tvm/scheme/internal/SchemeAbilities.h", "src/scheme/SchemeAbilities.cpp"],
  [("SolvingRequirements", "include/tvm/requirements/SolvingRequirements.h"), ("abilities check", "include/tvm/scheme/internal/SchemeAbilities.h")], obs=["value", "isDefault", "check"])

p("C17", "Tokens stay mutually paired and callbacks run exactly while their token lives",
  "Under any sequence of pairing, moving and destroying tokens, each token is paired with at most one other, pairing is mutual, follows moves, and a token is unpaired as soon as its partner is destroyed or overwritten. A registered callback runs on every notification, once and in registration order, exactly as long as the token obtained at its registration exists and it was not unregistered.",
  ["histories"], "all sequences of constructions, pairings, moves, assignments, destructions, registrations and notifications",
  "Tests follow one script; a dangling partner appears only for particular interleavings of moves and destructions.",
  ["include/tvm/internal/PairElementToken.h", "include/tvm/internal/CallbackManager.h"],
  [("token linking", "include/tvm/internal/PairElementToken.h"), ("callback list", "include/tvm/internal/CallbackManager.h")], obs=["isPaired", "isPairedWith", "run"])

p("C18", "Pending problem changes are coalesced without losing or inventing any",
  "Whatever the order in which tasks are added, removed and modified between two resolutions, the pending changes delivered to a resolution scheme and to a solver lead to the same set of tasks, constraints, objectives, bounds and variables as applying each change immediately. A task added and removed in between leaves no trace, and weight changes on remaining tasks are all delivered.",
  ["histories"], "all sequences of task additions, removals and weight changes, all sequences of solver-level additions and removals",
  "Tests needing a solver do not run here, and would only sample some sequences.",
  ["include/tvm/scheme/internal/ProblemComputationData.h", "include/tvm/solver/internal/SolverEvents.h", "src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp"],
  [("event queue filtering", "include/tvm/scheme/internal/ProblemComputationData.h"), ("pairwise cancellation", "include/tvm/solver/internal/SolverEvents.h")], obs=["events", "added/removed lists"])

p("C19", "A task is recognised as a bound only when it is one",
  "A constraint is treated as a bound on a variable only if it involves a single variable linearly through an invertible diagonal matrix, taking substitutions into account, and is offered to a solver with a given bound convention exactly when rewriting it as such a bound preserves its meaning, in particular the direction of inequalities.",
  ["inputs", "configurations"], "all constraints, annotations, substitutions and target conventions",
  "Tests cover a few combinations of sign annotation and convention.",
  ["src/scheme/helpers.cpp", "include/tvm/scheme/internal/helpers.h"], [("isBound/canBeUsedAsBound", "src/scheme/helpers.cpp")], obs=["isBound", "canBeUsedAsBound"])

p("C20", "Solver rows are allotted contiguously and follow every change of the problem",
  "While a least-squares problem is built or modified, every constraint, objective and bound gets its own block of rows (or its variable's slot), blocks of one kind are contiguous, disjoint and fill the declared sizes exactly, with two-sided constraints counted once or twice as the solver handles them. After any sequence of additions, removals and weight changes the assembled data equals that of a problem built from scratch.",
  ["histories", "configurations"], "all sets of constraints, objectives and bounds of any type, all sequences of modifications",
  "No solver is available to the test-suite here, so the bookkeeping is compiled but hardly run.",
  ["src/solver/LeastSquareSolver.cpp", "include/tvm/solver/abstract/LeastSquareSolver.h", "src/solver/HierarchicalLeastSquareSolver.cpp"],
  [("size counters and target range update", "src/solver/LeastSquareSolver.cpp")], obs=["startBuild", "addConstraint", "process", "assembled matrices"])

p("C21", "Affine expressions denote what they spell",
  "Combining variables, matrices, scalars and constants with sums, differences, products and negations yields an expression whose matrices and constant are those of the corresponding mathematical affine function, however terms are grouped or repeated, and building a linear function or task from it preserves that meaning, including the side and sign of right-hand sides.",
  ["inputs", "programs"], "all expressions over the supported operators, all sizes and values",
  "Expressions form an unbounded language of which tests sample some.",
  ["include/tvm/utils/AffineExpr.h", "include/tvm/utils/internal/AffineExprDetail.h", "include/tvm/utils/internal/AffineExprOperators.h", "include/tvm/utils/ProtoTask.h", "include/tvm/function/BasicLinearFunction.h"],
  [("expression templates", "include/tvm/utils/internal/AffineExprOperators.h")], obs=["A", "b", "value"])

p("C22", "Identifiers, time and geometric primitives keep their invariants",
  "Every identified object gets an identifier no other object had before, moving an object transfers it, and the clock counts exactly its advances. A plane set by a normal and a point contains that point, and keeps the normal, offset, velocities and accelerations last given.",
  ["histories", "inputs"], "all sequences of object creations, moves, clock advances and plane updates, all values",
  "Tests do not cover these at all, or for single values.",
  ["include/tvm/internal/ObjWithId.h", "include/tvm/internal/IdProvider.h", "src/Clock.cpp", "src/geometry/Plane.cpp"],
  [("id provider", "include/tvm/internal/IdProvider.h"), ("plane position", "src/geometry/Plane.cpp")], obs=["id", "ticks", "offset"])

p("C23", "Solving a problem minimises the weighted objectives under the constraints",
  "A resolution reports success only if the variable values it sets satisfy all priority-zero constraints and are optimal for the weighted (or lexicographic) least-squares objectives of the other priorities.",
  ["inputs", "configurations"], "all problems and resolution schemes",
  "Optimality over all problems cannot be sampled, and no numerical solver is available to the test-suite here.",
  ["src/scheme/WeightedLeastSquares.cpp", "src/scheme/HierarchicalLeastSquares.cpp", "src/solver"],
  [("assembly then external solver", "src/scheme/WeightedLeastSquares.cpp")], obs=["solve", "variable values"])

p("C24", "Steady-state updates and resolutions do not allocate memory",
  "Once a problem is finalized and unchanged, updating and solving it again performs no heap allocation, so that control loops keep a bounded execution time.",
  ["histories", "configurations"], "all unchanged problems over any number of control steps",
  "Allocation depends on the expressions evaluated; tests check it on a few examples only.",
  ["include/tvm/utils/memoryChecks.h", "include/tvm/scheme/abstract/ResolutionScheme.h"],
  [("allocation checks", "include/tvm/utils/memoryChecks.h")], obs=["heap allocations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
