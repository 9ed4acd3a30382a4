#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and the registered checks"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
import props  # noqa: E402

P = []


def p(id, title, statement, over, text, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k)))


A, S, R = 'annealers/src/', 'classical_solver/src/', 'src/'
p('C01', 'Accesses that skip the bounds check stay inside their buffers',
  'No sequence of calls through the safe public interface of the three crates reads or writes memory outside the buffers '
  'it owns: every access that skips the bounds check is reached only with an index that a preceding check or an '
  'established size relation puts in range, whether or not debug assertions are compiled in.',
  ['inputs', 'histories'], 'all arguments and call sequences of safe functions, in debug and release builds',
  'An out-of-range unchecked access usually still returns something; tests sample a few in-range indices in debug builds.',
  [A + 'repr.rs', A + 'model.rs', S + 'algo.rs', R + 'expanded.rs'],
  [('packed bit access', A + 'repr.rs get_unchecked/set_unchecked/flip_unchecked'),
   ('weight matrix access', A + 'model.rs get_weight_unchecked'),
   ('annealing inner loop', S + 'algo.rs simulated_annealing'),
   ('non-zero counters', R + 'expanded.rs count_qubit_subsets')])
p('C02', 'Safe code never sees uninitialised, zeroed or freed memory',
  'Every value that safe code can observe comes from initialised data: the bits of a new bit vector are zero, given or drawn '
  'from the generator, and in-place operators on expressions never hold a value made by zeroing or copying memory behind '
  'the type system\'s back. A reference whose lifetime is extended is held only by values that are gone before what it refers to.',
  ['inputs', 'histories'], 'all calls that create or update values',
  'Reading uninitialised memory or holding an invalid value has no reliable visible effect in a test run.',
  [A + 'repr.rs', R + 'expr.rs', R + 'solve.rs'],
  [('bit vector allocation', A + 'repr.rs with_len_unchecked'), ('assignment operators', R + 'expr.rs impl_assign_op'),
   ('model lifetime extension', R + 'solve.rs solve_with_constraints')])
p('C03', 'A packed bit vector behaves like an array of booleans',
  'For every length, position and history of writes, reading a position of a bit vector returns the value last written '
  'there (set, flip or construction), writes leave all the other positions and the length unchanged, and building from and '
  'converting to a list of booleans, iterating and indexing agree with reading. Out-of-range positions are refused.',
  ['inputs', 'histories'], 'all lengths, positions, values and operation sequences',
  'Tests touch three-bit vectors; the byte/bit split at positions 7, 8, 15, 16… and the untouched neighbours are not sampled.',
  [A + 'repr.rs'], [('bit operations', A + 'repr.rs BinaryRepr'), ('iteration', A + 'repr.rs BinaryReprIter')])
p('C04', 'Each unordered node pair has its own weight',
  'In every model, the weight reported for a product of nodes (a pair is written smaller node first) is the sum of all weights added for exactly '
  'that product, in whichever order the two nodes were given to a complete model, and zero if none was added to it; adding a weight changes no other product, '
  'and nodes outside the model are refused by a complete model.',
  ['inputs', 'histories'], 'all sizes, node pairs and sequences of additions',
  'The triangular index must be injective and in range for every size; tests use one model of three nodes.',
  [A + 'model.rs'], [('triangular storage', A + 'model.rs FixedSingleQuadricModel'), ('map storage', A + 'model.rs SingleModel')])
p('C05', 'Enumerations list every product and neighbour exactly once',
  'A model enumerates each of its nodes once, each product of nodes it can hold exactly once, and for a node exactly the '
  'products that contain it, for every size including zero and one. Node sets report their size, membership and '
  'contents consistently in every representation, and a solver without structure offers every pair of its nodes exactly once.',
  ['inputs'], 'all model sizes, nodes and node sets',
  'The existing tests enumerate one size each; off-by-one and phase-change errors at sizes 0, 1 and 2 are not covered.',
  [A + 'model.rs', A + 'set.rs', A + 'solver.rs'],
  [('product iterator', A + 'model.rs Prods'), ('neighbour iterator', A + 'model.rs Neighbors'), ('node sets', A + 'set.rs'),
   ('solver edge iterator', A + 'solver.rs UnstructuredEdgeIter')])
p('C06', 'Node kinds take their declared values',
  'A binary node is worth 1 when set and 0 when clear, a spin node +1 and -1, a two-valued node the two values it was made '
  'with; the value of a product of nodes is the product of the values of its members, for any number of members.',
  ['inputs'], 'all node kinds, states and product lengths',
  'Only binary nodes are exercised by tests; the spin and two-valued kinds are never run.',
  [A + 'node.rs'], [('values', A + 'node.rs get_value'), ('products', A + 'node.rs calculate_prod')])
p('C07', 'Reported energy and local fields match the model',
  'The energy computed for a solution is the sum, over the model\'s products, of weight times product value, and the local '
  'field of each node is the change of that energy when that node alone is flipped; asking for either neither changes the '
  'state nor recomputes a value the solution already carries. Solutions compare by energy, and only when both have one.',
  ['inputs', 'histories'], 'all models, states and orders of calls',
  'No existing test evaluates a local field or compares solutions, and energies are checked for two tiny models.',
  [A + 'solution.rs', A + 'model.rs'],
  [('energy', A + 'solution.rs calculate_energy'), ('local field', A + 'solution.rs calculate_local_field'),
   ('caching', A + 'solution.rs with_energy, with_local_field'), ('comparison', A + 'solution.rs compare_energy')])
p('C08', 'Annealing keeps exact flip costs and accepts by the Metropolis rule',
  'At every point of an annealing run, the flip cost the algorithm holds for each node equals the energy change that '
  'flipping that node would cause in the current state, for every model and state. A node is flipped when its cost is '
  'at most zero, otherwise with probability exp(-cost*beta) apart from a cut-off below 1e-19, every node is tried in every sweep, '
  'and a state whose length differs from the model is refused.',
  ['inputs', 'histories', 'schedules'], 'all models, start states, random draws and numbers of sweeps',
  'A wrong incremental update still anneals towards plausible states; tests look only at the final state of tiny models.',
  [S + 'algo.rs'], [('initial costs', S + 'algo.rs calculate_flip_cost'), ('update after a flip', S + 'algo.rs simulated_annealing')])
p('C09', 'Cooling schedules are what was asked for',
  'A schedule given explicitly is used unchanged; a count gives exactly that many inverse temperatures, and a count with a range '
  'gives a geometric progression from the first value to the last. Without a range, the first value is ln 2 over the '
  'largest sum of absolute weights at one node and the last is ln 100 over the largest absolute weight, each also divided by the '
  'difference of the two values of a node, so that the schedule is positive and never decreases, also for a model whose weights are all zero.',
  ['inputs', 'configurations'], 'all schedule requests and models',
  'Any schedule lets the tiny test models converge, so nothing in the tests depends on it.',
  [S + 'beta.rs'], [('schedule', S + 'beta.rs generate_schedule, generate_beta_schedule'), ('range', S + 'beta.rs generate_beta_range')])
p('C10', 'Expression operators mean what they look like',
  'For all operands, +, -, *, unary minus and power on expressions, with an expression or a number on either side and for every '
  'numeric type, denote the sum, difference, product, negation and repeated product of their operands (power zero is one), '
  'and the assigning forms leave the same expression as the operator.',
  ['inputs', 'programs'], 'all operand expressions, numbers, exponents and numeric types',
  'There are dozens of operator implementations made by macros; tests use a handful, mostly with commutative operands.',
  [R + 'expr.rs'], [('operators', R + 'expr.rs impl_binary_op, Neg, Add, Sub, Mul'), ('assigning operators', R + 'expr.rs impl_assign_op'),
                    ('power', R + 'expr.rs BitXor')])
p('C11', 'Compilation preserves the meaning of every expression',
  'For every expression and every assignment of its variables, the polynomial a compiled model minimises equals the expression\'s value, with each '
  'labelled constraint multiplied by its own strength, plus all attached penalties; spins are worth +1/-1, binaries 1/0, and '
  'every labelled constraint of the expression is kept with its label, its strength and its own expression.',
  ['programs', 'inputs'], 'all expressions and assignments',
  'Tests compile a few expressions; the identity quantifies over all expression trees and all assignments.',
  [R + 'expr.rs', R + 'model.rs', R + 'expanded.rs'],
  [('translation', R + 'expr.rs to_model'), ('model algebra', R + 'model.rs Add, Mul, add_penalty, add_constraint, to_compiled'),
   ('polynomial algebra', R + 'expanded.rs AddAssign, MulAssign')])
p('C12', 'Rewriting coefficients never changes their value',
  'Simplifying, expanding, combining and converting coefficient expressions preserves their value for every value of the '
  'placeholders, also for empty and nested sums and products and for coefficients made of numbers only. Listing the placeholders of a coefficient '
  'gives exactly those that occur in it.',
  ['inputs', 'programs'], 'all coefficient expressions and placeholder values',
  'One expansion is tested; empty sums, nested products and numeric folding are not.',
  [R + 'expr.rs', R + 'expanded.rs'], [('simplification', R + 'expr.rs simplify, expand_add, expand_mul, get_cross'),
                                       ('conversion to expressions', R + 'expr.rs From<StaticExpr>, ' + R + 'expanded.rs Into<Expr>'),
                                       ('evaluation', R + 'expr.rs calculate, get_placeholders')])
p('C13', 'A coefficient\'s sign is claimed only when it is certain',
  'Whenever the compiler treats a coefficient as positive (or as negative), the coefficient is not negative (not positive) for all '
  'non-negative values of its placeholders; otherwise it makes no claim.',
  ['inputs'], 'all coefficient expressions and non-negative placeholder values',
  'No test looks at the inferred sign; a wrong one silently yields a wrong quadratic model.',
  [R + 'expr.rs', R + 'expanded.rs'], [('sign inference', R + 'expr.rs is_positive'), ('use of the sign', R + 'expanded.rs count_qubit_subsets')])
p('C14', 'Placeholder values reach every use, and only theirs',
  'Feeding values replaces every occurrence of each given placeholder, in sums, products, constraints, penalties and the '
  'compiled polynomial and its constraints, by its value, and leaves everything else, including other placeholders, as it was. A model with '
  'an unfilled placeholder cannot be turned into one ready to solve.',
  ['inputs', 'programs'], 'all expressions, compiled models and dictionaries',
  'No existing test feeds a placeholder.',
  [R + 'expr.rs', R + 'compiled.rs', R + 'expanded.rs', R + 'model.rs', R + 'wrapper.rs'],
  [('feeding', 'feed_dict in src/expr.rs, src/expanded.rs, src/model.rs, src/compiled.rs'),
   ('closing', 'drop_placeholder in src/expr.rs, src/expanded.rs, src/model.rs, src/wrapper.rs')])
p('C15', 'Order reduction preserves the minimum over auxiliary variables',
  'Every step that lowers the order of a polynomial replaces products so that, for every assignment of the original variables and every '
  'non-negative value of the placeholders, the minimum over the new auxiliary variables equals the original polynomial. '
  'Whatever is compiled ends with no product of more than two variables.',
  ['programs', 'inputs'], 'all polynomials, coefficient signs and assignments',
  'Tests contain no product of more than two variables, so order reduction is never run.',
  [R + 'compiled.rs', R + 'expanded.rs'],
  [('gadgets', R + 'compiled.rs generate_replace'), ('replacement loop', R + 'compiled.rs reduce_order'),
   ('choice of the set', R + 'expanded.rs count_qubit_subsets, get_subsets')])
p('C16', 'Auxiliary variables are never reused or confused with labels',
  'Each auxiliary variable introduced while compiling is different from every other one introduced in the same compilation '
  'and from every variable of the user, whatever its label, and stays so when compilation continues from an already compiled model.',
  ['programs', 'histories'], 'all expressions and compilations',
  'A reused auxiliary variable still gives a well-formed model; only its minimum is wrong.',
  [R + 'wrapper.rs', R + 'compiled.rs'], [('builder', R + 'wrapper.rs Builder::ancilla'), ('threading', R + 'compiled.rs reduce_order, generate_replace')])
p('C17', 'The generated QUBO has the compiled polynomial\'s energies',
  'For every list of variables covering the polynomial and all strengths, the energy of the generated quadratic model plus the returned offset '
  'equals the compiled polynomial at the corresponding assignment: each term lands on its own variables\' weight, and constants '
  'in the offset. A term with more than two variables or an unknown variable is refused, never dropped.',
  ['inputs', 'programs'], 'all compiled polynomials, variable orders and strengths',
  'Tests see only the optimum of tiny models, which most misplaced weights leave unchanged.',
  [R + 'expanded.rs', R + 'compiled.rs'], [('generation', R + 'expanded.rs generate_qubo'), ('variables', R + 'expanded.rs get_qubits')])
p('C18', 'The solver reports a consistent result',
  'What the solver returns belongs together: the energy is that of the returned assignment including the constant offset, and is '
  'the lowest of the samples of its round; the listed labels are exactly the labelled constraints that this assignment '
  'leaves unsatisfied. The solver stops early only with no labelled constraint unsatisfied, and an error of the underlying solver is returned as such.',
  ['inputs', 'schedules', 'histories'], 'all models, sample outcomes and numbers of rounds',
  'Sampling is random and the tests accept the optimum only; a mix-up between samples, rounds or orders shows rarely.',
  [R + 'solve.rs'], [('selection', R + 'solve.rs solve_with_constraints'), ('dropping labels', R + 'solve.rs solve')])
p('C19', 'Constraints are judged by their own expression',
  'A constraint counts as satisfied exactly when its expression, evaluated at the assignment with spins +1/-1 and binaries 1/0, is '
  'within 1e-4 of zero, or cannot be evaluated because a variable or placeholder has no value and no zero factor decides it. '
  'Exactly the constraints that are not satisfied are reported.',
  ['inputs'], 'all constraint expressions and assignments',
  'The tests contain two satisfied constraints; negative residuals, spins and partial assignments are not evaluated.',
  [R + 'model.rs', R + 'expr.rs', R + 'compiled.rs'],
  [('judgement', R + 'model.rs is_satisfied'), ('evaluation', R + 'expr.rs calculate'), ('report', R + 'compiled.rs get_unsatisfied_constraints')])
p('C20', 'Constraint strengths share out the total and grow when violated',
  'While solving, the strengths of the constraints are proportional to their points, add up to the configured total, and are not lost to '
  'rounding as long as a constraint\'s share is at least one unit of the numeric type. Every constraint starts with the same points, and '
  'exactly the unsatisfied ones gain a point after a round that improved the energy.',
  ['inputs', 'histories', 'configurations'], 'all numbers of constraints, numeric types, totals and rounds',
  'The tests use one constraint, for which every share is the whole.',
  [R + 'solve.rs'], [('points and shares', R + 'solve.rs solve_with_constraints')])
p('C21', 'Solutions show the user\'s variables and nothing else',
  'The solution handed to the user lists exactly the variables that occur in the compiled polynomial and were named by the user, and for each of them '
  'lookup, indexing, iteration, debug output and local field refer to that variable\'s own position; lookups of unknown labels '
  'return nothing.',
  ['inputs'], 'all models, including ones with auxiliary variables, and all labels',
  'The tests use models without auxiliary variables, for which every mapping is the identity.',
  [R + 'solution.rs', R + 'solve.rs'], [('view', R + 'solution.rs SolutionView'), ('label map', R + 'solve.rs qubit_map, get_qubits')])
p('C22', 'Numeric conversions keep the value and pick the wider type',
  'For each supported numeric type, the numeric interface\'s constants, comparison, absolute value, conversions and finiteness '
  'tests are those of that type, zero and one are 0 and 1, and the missing value is NaN where the type has one and the given value elsewhere. Mixing two types converts both operands, each as itself, to the wider one of the '
  'two, in either order; only widening conversions are offered without force.',
  ['inputs', 'configurations'], 'all values and ordered pairs of the seven numeric types',
  'The conversions are macro-made for 49 pairs; the tests use two types and never mix them.',
  [A + 'variable.rs'], [('numeric interface', A + 'variable.rs Real'), ('conversion matrix', A + 'variable.rs ConvertWith, ConvertFrom, ConvertForce')])
p('C23', 'Solver wrappers pass everything on unchanged',
  'Wrapping a solver as a structured one keeps its solver, its errors, its node count and its order: generation is delegated, an '
  'unlimited solver offers all nodes and a limited one exactly its nodes. The default range of accepted values spans the numeric type, and '
  'a generated annealer uses the model, the number of sweeps and the schedule that were configured.',
  ['configurations', 'inputs'], 'all solver generators and models',
  'Only one generator is used in tests, and never through the wrapper.',
  [A + 'solver.rs', S + 'sa.rs'], [('wrapper', A + 'solver.rs AsStructuredSolverGeneratorWrapper'), ('annealer generator', S + 'sa.rs')])

p('C24', 'Order reduction considers every group of variables that long terms share',
  'For every polynomial and target order, the groups offered for replacement are exactly those of at least two variables of the terms that are '
  'longer than the target: each such group is visited once per term and counted with the number of terms that contain it, pairs for all of '
  'them together and larger groups apart by the sign claimed for the coefficient, leaving out those without a claim. A bound on the size of the groups is kept.',
  ['inputs'], 'all polynomials, target orders and admissible bounds on the size of groups',
  'The one test enumerates a single set of four without an upper bound; counts, signs and bounds are never looked at.',
  [R + 'expanded.rs', R + 'compiled.rs'],
  [('enumeration', R + 'expanded.rs get_subsets'), ('counts', R + 'expanded.rs count_qubit_subsets'), ('use', R + 'compiled.rs reduce_order')])
p('C25', 'Rewriting an expression visits every node once, from the root down',
  'Mapping a function over an expression applies it to the root first and then to the parts of what it returned, left to right and down to the leaves, each part '
  'once; the result is made of exactly what the function returned, with labels and everything else unchanged. Changing the numeric '
  'type changes the numbers only.',
  ['inputs', 'histories'], 'all expressions and all functions, including ones with a state',
  'No test calls it; a skipped part or a second visit shows only for some shapes and functions.',
  [R + 'expr.rs'], [('rewriting', R + 'expr.rs Expr::map'), ('numeric type', R + 'expr.rs Expr::map_number')])
p('C26', 'Copies equal their originals and comparisons are exact',
  'Cloning a value of any type of the three crates gives the same value, in every field. Variables, placeholders, expressions, coefficients and orders '
  'are equal exactly when they have the same structure, and their order is a total order that agrees with equality and with the partial order: '
  'nothing that keys a map, a set or a sort is ever confused or duplicated.',
  ['inputs', 'programs'], 'all values of the types that can be cloned or compared',
  'A copy or comparison that differs in a corner case corrupts maps and sets silently; tests compare few values.',
  [R + 'wrapper.rs', R + 'expr.rs', A + 'lib.rs', A + 'model.rs', A + 'solution.rs'],
  [('keys', R + 'wrapper.rs Qubit, Placeholder'), ('expressions', R + 'expr.rs Expr, StaticExpr'), ('orders', A + 'lib.rs order'), ('copies', 'every impl of Clone')])
p('C27', 'A model describes itself as it was made',
  'A model reports the node kind, the order and, for a complete model, the number of nodes it was constructed with, whatever was added since; a model made of products '
  'has exactly the nodes of its products. Quadratic models have degree two and others the degree they were given. Seen through a more general interface, a '
  'model reports the same node kind, order, nodes, size and weights.',
  ['configurations', 'histories'], 'all models, additions and views of a model',
  'Solvers read models through three layers of interfaces; the tests read one of them, for one model.',
  [A + 'model.rs', A + 'lib.rs'], [('views', A + 'model.rs ModelView, SingleModelView, FixedSingleModelView'), ('degrees', A + 'lib.rs Order')])

P.sort(key=lambda q: q['id'])
NA = {}
try:
    with open(os.path.join(ROOT, 'tools', 'na.json')) as fh:
        NA = json.load(fh)
except FileNotFoundError:
    pass


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for q in P:
            fh.write(json.dumps(q, ensure_ascii=False) + '\n')
    checks, na = [], []
    for q in P:
        d = props.ALL.get(q['id'])
        if d is None:
            na.append(dict(property=q['id'], reason=NA.get(q['id'], 'check not built yet')))
            continue
        checks.append(dict(property=q['id'], quick_cmd=f'python3 check.py {q["id"]}',
                           thorough_cmd=f'python3 check.py {q["id"]} --thorough', technique=d['technique'],
                           level=d['level'], level_note=d['explanation']))
    m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
             notes='Static analysis of the typed IR (THIR) of the three crates: see DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')


main()
