#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the lines stay readable).
import json
B = 'cpp/include/gatl/ga/'
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[B + f for f in files], state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook))
props = [
P('C01', 'Calls are isolated: no hidden state and no data race between threads',
  'The result of every library operation depends only on the values of its operands: it is bit for bit the result of making that single call in a fresh process, whatever calls were made before it in the process and whatever other threads are calling at the same time, on the same unmodified operands or on others. An operation never changes its operands, and concurrent calls never make unsynchronised conflicting accesses to memory (no data race).',
  ['schedules', 'histories', 'inputs', 'programs'],
  'every interleaving of any number of caller threads, every earlier call history, every public operation of every algebra header, every operand value (near-duplicates, sign changes, zeros, permutations, reused operand objects)',
  'The tests are single-threaded, call each operation once per type with hand-picked values, and compare two results made in the same process; they never run two threads and never compare a call with the same call made after another history.',
  ['core.hpp', 'core/clifford_expression.hpp', 'core/lazy_context.hpp', 'core/geometric_product.hpp', 'core/orthogonal_metric_mapping.hpp', 'core/general_metric_mapping.hpp', 'core/metric_space.hpp', 'core/math.hpp', 'extra/grade.hpp', 'extra/take_grade.hpp', 'extra/meet_and_join.hpp', 'extra/fast_meet_and_join.hpp', 'extra/reverse_norm.hpp', 'extra/inverse_geometric_product.hpp', 'extra/blade_exponential.hpp', 'extra/apply_versor.hpp', 'model/conformal/point.hpp', 'model/signed/metric_space.hpp'],
  [('operations are stateless functions that build their results from const references to the operands', B + 'core/*.hpp, extra/*.hpp, util/*.hpp, model/**/*.hpp'),
   ('metric space objects and constants are immutable compile-time objects', B + 'core/metric_space.hpp, core/constant.hpp')],
  state=[('metric space objects, basis vectors and basis names of each algebra', 'read-only after static initialisation', B + 'model/*/macro_for_algebra_definition.hpp')],
  observe=['returned values', 'operand values after the call', 'every non-stack memory access of the calling threads']),
P('C02', 'Writing an expression: exact prefix, failure reported, never terminate',
  'Writing an expression to an output stream (write or operator<<) sends the expression text, in order and without gap or duplication, to that stream only: if the stream fails, throws or accepts only part of the data at any point, what it accepted is an exact prefix of the text, the failure is visible to the caller (stream state, or the exception the stream or a coefficient inserter threw), and the process is never terminated. The text depends only on the expression, the basis names and the stream formatting state, formatting state is left as it was, and writing again once the stream works gives the complete text, including when other threads write to their own streams at the same time.',
  ['fault_sequences', 'crash_points', 'schedules', 'inputs'],
  'every byte position and kind of stream failure (short write, device error, throwing stream buffer, throwing coefficient inserter, streams with and without exceptions enabled), every interleaving of writers, every kind of expression (constant, stored, runtime basis blade, lazy), every formatting state',
  'No test writes to a failing stream; the only use of the inserter in the tests is printing diagnostics to the console.',
  ['extra/write.hpp', 'extra/macro_for_algebra_overload.hpp'],
  [('write_expression<...>::run walks the expression and inserts each piece with operator<<', B + 'extra/write.hpp'), ('operator<< of each algebra header', B + 'extra/macro_for_algebra_overload.hpp')],
  observe=['bytes accepted by the stream buffer', 'stream state', 'exceptions']),
P('C03', 'Component traversal: exactly once, in order, cancel and exceptions obeyed',
  'for_each_component and for_each_basis_vector call the given function object exactly once per component (or basis vector) of the argument, in storage order, with the right basis blade, value, source tags and keep_going preset to true; the first call that clears keep_going is the last one and makes the traversal return false, otherwise it returns true. An exception thrown by the callback at any call reaches the caller unchanged with no further call, the argument is never changed, and callbacks may themselves traverse (the same or another expression), suspend, or run interleaved with traversals of other threads.',
  ['crash_points', 'schedules', 'fault_sequences', 'inputs'],
  'every call index at which the callback cancels, throws, re-enters or is suspended, every interleaving of traversals, every expression layout (constant, stored, runtime basis blade)',
  'The tests call the traversals only indirectly, with callbacks that never throw, never re-enter and never run concurrently.',
  ['util/for_each_component.hpp', 'util/for_each_basis_vector.hpp', 'extra/tests.hpp'],
  [('recursive walk over the component list passing keep_going', B + 'util/for_each_component.hpp'), ('bit-by-bit walk of the basis blade', B + 'util/for_each_basis_vector.hpp')],
  observe=['sequence of callback invocations', 'return value', 'exceptions']),
P('C04', 'One-time warnings: at most once, and never able to spoil a conversion',
  'The warning about an implicit conversion between expression types is written to std::clog at most once per process for each kind of conversion (source type, target type, copy or move), as one whole line, however many threads make that conversion first at the same moment. The first conversion of each kind does write it while std::clog works, and whether std::clog works, fails or blocks never changes the converted value or which conversions are rejected.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of the first conversions of a kind, every order of copy and move conversions between several types, every failure point of std::clog',
  'The tests make few implicit conversions, in one thread, and never look at std::clog.',
  ['core.hpp', 'core/trivial_copy.hpp'],
  [('_GA_ONE_TIME_WARNING keeps one flag per conversion', B + 'core.hpp'), ('converting constructors of clifford_expression', B + 'core/trivial_copy.hpp')],
  state=[('first_time', 'whether this conversion has not been reported yet', B + 'core.hpp')],
  observe=['text received by the std::clog buffer', 'converted values']),
P('C05', 'Checked copies: exact components, or an exception and nothing lost',
  'trivial_copy, checked_trivial_copy and the implicit conversions between expression types give a target whose components equal the source components and are zero elsewhere; a checked copy or implicit conversion that would drop a component whose magnitude exceeds the tolerance throws bad_checked_copy_exception to the caller instead. When that or a failing coefficient copy (for example out of memory) interrupts the copy at any point, the process is not terminated, the source is unchanged, every target component holds its old or its new value, nothing leaks, and repeating the copy once the cause is gone gives the complete result.',
  ['fault_sequences', 'crash_points', 'histories', 'inputs'],
  'every point at which a coefficient operation can fail during the copy, every source and target layout, every value on either side of the tolerance, every history of failed and repeated copies into the same target, interleaved with copies by other threads',
  'One test copies a handful of fixed values; no test makes a coefficient operation fail, checks the target after a failure, or repeats a failed copy.',
  ['core/trivial_copy.hpp', 'core/clifford_expression.hpp', 'core/default_tolerance.hpp'],
  [('_trivial_copy merges the two sorted component lists, assigning, zeroing or checking each', B + 'core/trivial_copy.hpp'), ('converting constructors', B + 'core/trivial_copy.hpp')],
  observe=['target and source components', 'exceptions', 'live coefficient objects']),
P('C06', 'Lazy contexts: evaluation uses the inputs as given, whenever and wherever',
  'Evaluating an expression through a lazy context gives the value obtained by computing the expression directly on the inputs the context was made from, whether those inputs were lvalues or temporaries that are gone by now, and whatever happened between making the context and evaluating (the context was returned, copied or moved, other code ran, the stack was reused). Evaluation never reads an object whose lifetime has ended, never changes the context, may be repeated with the same result, and may run in several threads on one context at the same time.',
  ['histories', 'schedules', 'inputs', 'crash_points'],
  'every distance and every activity between making a context and evaluating it, every mix of lvalue, temporary and compile-time inputs, nested and copied contexts, every interleaving of evaluating threads',
  'The tests evaluate immediately in the function that made the context, so a context that refers to dead inputs passes or fails by the accident of stack layout.',
  ['core/lazy_context.hpp', 'extra/grade.hpp', 'extra/take_grade.hpp', 'extra/delta_product.hpp', 'extra/blade_exponential.hpp'],
  [('lazy_context stores its inputs and substitutes them for tagged variables', B + 'core/lazy_context.hpp')],
  state=[('input_', 'an input of the context', B + 'core/lazy_context.hpp')],
  observe=['evaluated values', 'lifetime of every coefficient object read']),
P('C07', 'Coefficient ownership: operands kept, no dead reads, no leaks',
  'With a coefficient type that owns memory, every public operation leaves lvalue operands and arguments fully intact (never moved from, never modified), never uses a coefficient object before its construction or after its destruction or moves-from it and reads it, and destroys every coefficient it creates exactly once, including when the operation ends by an exception. Results own their coefficients: they stay valid and unchanged after the operands are modified or destroyed and their memory is reused, and changing a result never changes an operand.',
  ['histories', 'fault_sequences', 'schedules', 'inputs', 'programs'],
  'every sequence of operations over shared operands (copies, moves, assignments, products, conversions), every point at which operands are modified, destroyed or their memory reused, every exception raised by an operation that may throw, interleaved threads',
  'The tests use built-in arithmetic types only, for which moving from an operand or reading a dead object goes unnoticed.',
  ['core/clifford_expression.hpp', 'core/scalar.hpp', 'core/constexpr.hpp', 'core/lazy_context.hpp', 'util/vector.hpp', 'core/trivial_copy.hpp', 'model/conformal/point.hpp'],
  [('values are held by value in sequential_storage and forwarded with their value category', B + 'core/clifford_expression.hpp, util/vector.hpp')],
  observe=['construction, copy, move, destruction and every read of each coefficient object', 'operand and result values']),
# Properties the technique cannot address (listed under not_applicable).
P('C08', 'Products agree with the metric of the space',
  'Geometric, outer, regressive, scalar, contraction, dot, Hestenes, commutator and delta products of any two multivectors equal their definition from the metric matrix of the space, are linear in both arguments, and give the same multivector for compile-time, stored and runtime-blade operands.',
  ['inputs', 'programs'], 'every pair of multivectors of every supported space and every mix of compile-time and runtime components',
  'The product tests cover the basis blades of the smallest Euclidean spaces only.',
  ['core/geometric_product.hpp', 'core/orthogonal_metric_mapping.hpp', 'core/general_metric_mapping.hpp', 'core/regressive_product_mapping.hpp'],
  [('metric mappings', B + 'core/*_mapping.hpp')]),
P('C09', 'Compile-time simplification preserves values',
  'Any rewriting of expressions at compile time (constants, sums, products, powers, reordering signs) gives the value that direct evaluation in exact arithmetic gives.',
  ['inputs', 'programs'], 'every expression tree and every value of its variables',
  'Four fixed expressions are tested.',
  ['core/expression_simplification_addition_values.hpp', 'core/expression_simplification_product_values.hpp', 'core/expression_simplification_power.hpp'],
  [('rewriting rules', B + 'core/rules.hpp')]),
P('C10', 'Grade queries and extraction',
  'grade, largest_grade, take_grade and take_largest_grade agree with the set of grades whose coefficients exceed the tolerance.',
  ['inputs'], 'every multivector and tolerance', 'Five fixed cases are tested.',
  ['extra/grade.hpp', 'extra/take_grade.hpp'], [('grade selection by runtime comparison', B + 'extra/grade.hpp')]),
P('C11', 'Norms, inverses, duals and versor application',
  'rnorm_sqr, unit, inv, igp, dual, undual, exp and the versor applications satisfy their algebraic identities (inv(v) v = 1, undual(dual(x)) = x, versors preserve the inner product) within rounding.',
  ['inputs'], 'every invertible versor and blade of every space', 'No test covers them.',
  ['extra/versor_inverse.hpp', 'extra/dualization.hpp', 'extra/apply_versor.hpp', 'extra/blade_exponential.hpp', 'extra/reverse_norm.hpp'],
  [('definitions over the core products', B + 'extra/*.hpp')]),
P('C12', 'Meet, join and plunge',
  'meet_and_join, fast_meet_and_join and plunge return the intersection, union and plunge of the given blades, independent of their scale.',
  ['inputs'], 'every pair of blades', 'No test covers them.',
  ['extra/meet_and_join.hpp', 'extra/fast_meet_and_join.hpp', 'extra/plunge.hpp', 'extra/fast_plunge.hpp'],
  [('projection-based search over basis vectors', B + 'extra/meet_and_join.hpp')]),
P('C13', 'Model-specific constructions and parameters',
  'In the conformal, Minkowski, homogeneous and plane-based models, points, directions, locations, moments, supports and sizes extracted from a blade are those of the geometric object it represents.',
  ['inputs'], 'every flat, round and tangent of every model', 'No test covers them.',
  ['model/conformal/round_location.hpp', 'model/signed/homogeneous/flat_support_vector.hpp', 'model/signed/minkowski/round_size_sqr.hpp'],
  [('closed formulas over the core products', B + 'model/**/*.hpp')]),
]
with open('/verif/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
