#!/usr/bin/env python3
"""writes /verif/properties.jsonl (source of truth for the property texts)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


p('C01', 'Loop bounds and assigned values are exact for every integer point',
  'For every affine constraint and every loop variable with a non-zero coefficient in it, the bound expression generated for that variable admits exactly the integer values of the variable that satisfy the constraint (ceiling for lower bounds, floor for upper bounds, exact quotient for equalities), for all values of the outer variables and parameters. '
  'A loop\'s lower (upper) bound is the maximum (minimum) of the bounds of all and only the relevant constraints, and a lower bound adjusted for a stride is the smallest value not below the original one that is congruent to the stride offset.',
  ['inputs'], 'all constraints (any coefficients, signs, sizes), all levels, all values of iterators and parameters',
  'the 473 golden-file tests compare text for fixed inputs; they cannot cover sign, divisibility and size combinations of coefficients for all points',
  ['source/clast.c', 'source/isl/constraints.c'],
  [('clast_bound_from_constraint', 'source/clast.c'), ('clast_minmax/valid_bound/collect_bounds', 'source/clast.c'), ('update_lower_bound', 'source/clast.c'), ('cloog_constraint_* accessors', 'source/isl/constraints.c')], ['expressions in struct clast_for / clast_assignment'])
p('C02', 'Guards accept exactly the points that satisfy the guarded constraints',
  'Every generated guard condition is true at an integer point exactly when the constraint it stands for holds there: an ordinary guard equation has the value of its constraint, and a modulo guard tests exactly the divisibility (or bounded remainder) that makes the eliminated variable integral, including after simplification with stride information. '
  'A guard reported as statically satisfied or unsatisfiable really is so.',
  ['inputs'], 'all constraints, strides, levels and points',
  'golden files fix a few modulo guards; exactness quantifies over all points and all coefficient residues',
  ['source/clast.c'],
  [('insert_modulo_guard_constraint', 'source/clast.c'), ('eliminate_using_stride_constraint', 'source/clast.c'), ('insert_computed_modulo_guard, constant_modulo_guard_is_satisfied', 'source/clast.c'), ('insert_guarded_otl_for, insert_guard_constraint', 'source/clast.c')], ['struct clast_guard in the AST'])
p('C03', 'Printed C and Fortran text has the value and structure of the AST',
  'For every expression tree, the printed C (or Fortran) text, read with that language\'s precedence rules and CLooG\'s floord/ceild/min/max helpers, evaluates to the value of the tree in every environment. '
  'For loops, guards, assignments and statements the printed header uses exactly the tree\'s iterator, bounds, stride, comparison signs and statement arguments, in order, and every opened brace or block is closed.',
  ['inputs', 'configurations'], 'all AST trees, both output languages, all printing options',
  'golden files are a fixed sample of trees; precedence and sign errors show only for particular shapes',
  ['source/pprint.c'],
  [('pprint_name/term/sum/binary/minmax_*/reduction/expr', 'source/pprint.c'), ('pprint_for/guard/equation/assignment/user_stmt/stmt_list', 'source/pprint.c')], ['text written to the output stream'])
p('C04', 'Expression copy, equality and constant comparison never misjudge',
  'Two expressions are reported equal only if they evaluate to the same value in every environment, and one is reported a bigger constant only if it is strictly bigger in every environment; a copied expression evaluates like its original and shares no memory with it. '
  'None of these operations changes its operands.',
  ['inputs'], 'all pairs of expression trees of any shape and depth',
  'loop collapsing depends on these judgements; tests exercise the few trees their inputs happen to generate',
  ['source/clast.c'], [('clast_expr_cmp family, clast_expr_equal, clast_expr_is_bigger_constant, clast_expr_copy', 'source/clast.c'), ('new_clast_*/free_clast_*', 'source/clast.c')], ['return values, AST'])
p('C05', 'Multi-precision vector operations are exact for all values and aliasing',
  'Negation, copy, linear combination, exact scaling, gcd, normalisation, first-non-zero, least-magnitude and is-negation of integer vectors return exactly their mathematical result for every length and every value, also when destination and sources are the same vector, and change nothing else.',
  ['inputs'], 'all vectors of all lengths, all aliasing patterns of whole vectors',
  'no test calls these functions directly',
  ['source/int.c'], [('cloog_vec_*, cloog_seq_*', 'source/int.c')], ['contents of the vectors'])
p('C06', 'Restructuring loops never loses, duplicates or invents statement instances',
  'Every operation that rewrites a list of loops (restriction, projection, making disjoint, combining, separating into disjoint pieces, merging inner loops, sorting, stopping, simplifying, nesting, copying) yields a list that contains, at every integer point and for every statement block, the same multiset of statement instances as its input within the context it is given, and the pieces produced by separation are pairwise disjoint. '
  'End to end, the generated AST executes each integer point of each statement domain exactly once and nothing else, for every value of the parameters.',
  ['inputs', 'configurations'], 'all loop lists, domains, statements, levels and option settings',
  'golden tests compare text for fixed polyhedra; coverage quantifies over all domains, all integer points and all parameter values',
  ['source/loop.c', 'source/program.c'],
  [('cloog_loop_restrict/project/disjoint/combine/separate/merge/sort/stop/simplify/nest/copy', 'source/loop.c')], ['CloogLoop lists', 'generated AST executed on points'])
p('C07', 'Every object is released exactly once and never used after release',
  'Statements, blocks, strides, loops, domains and the state they share are reference counted or owned so that every operation (create, copy, add to a list, merge, free) keeps the count equal to the number of live holders: nothing is freed while a holder remains, everything is freed with its last holder, and no memory or isl reference is leaked on any path, including failure and early-exit paths.',
  ['inputs', 'histories'], 'all histories of create/copy/merge/free calls, all list lengths, all generator inputs',
  'leak and use-after-free depend on particular sharing histories; the golden tests compare only text',
  ['source/statement.c', 'source/block.c', 'source/stride.c', 'source/state.c', 'source/loop.c', 'source/isl/domain.c'],
  [('cloog_statement_*/cloog_block_*/cloog_stride_* life cycle', 'source/statement.c, source/block.c, source/stride.c'), ('cloog_domain_copy/free', 'source/isl/domain.c'), ('cloog_loop_free/free_parts/alloc/copy', 'source/loop.c')], ['heap', 'reference counts', 'isl context references'])
p('C10', 'Detected strides and unrolling counts describe the domain exactly',
  'A stride (with its offset, or constraint and factor) reported for a level divides every point of the domains it was computed from into the reported residue class; adjusting lower bounds to a stride keeps every point on the stride and moves the bound onto the stride; a level reported unrollable is covered exactly by the reported number of copies fixed at consecutive offsets from the reported lower bound.',
  ['inputs'], 'all domains, levels, coefficients and strides',
  'stride tests fix a few moduli; gcd, sign and coprimality cases are unbounded',
  ['source/isl/domain.c', 'source/isl/constraints.c', 'source/loop.c'],
  [('Euclid, construct_stride, find_stride, cloog_domain_list_stride, cloog_domain_stride', 'source/isl/domain.c'), ('constraint_stride_lower(_c), cloog_domain_stride_lower_bound', 'source/isl/domain.c'), ('cloog_domain_can_unroll, cloog_domain_fixed_offset', 'source/isl/domain.c')], ['CloogStride fields', 'resulting domains'])
p('C16', 'Domain operations are exact set operations that respect their operands',
  'Every CloogDomain/CloogScattering operation returns exactly the set it names: union, intersection, difference, simplification (equal inside the context), hulls (supersets), projection and extension, scattering application and removal of a dimension, splitting off the first piece, conversion from matrices and bounds. '
  'Queries (emptiness, equality, disjointness, convexity, dimension, boundedness, one-time loops, order at a level, constant dimensions, blockability) never claim something false, and operands that are not documented as consumed keep their value and reference.',
  ['inputs', 'histories'], 'all domains, scatterings, levels and sharing situations',
  'no unit test calls the domain layer; the golden tests see it only through whole programs',
  ['source/isl/domain.c'], [('cloog_domain_* and cloog_scattering_* wrappers', 'source/isl/domain.c')], ['returned sets', 'operands after the call', 'isl reference counts'])

open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P), 'properties')
