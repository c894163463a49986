from .common import *
PROOFS = SCALARS + VECTORS + EVALS(1)
BOUNDED = [B_EVAL(1)]

META = dict(
    title='Non-finite points get non-finite values and leave no trace',
    statement='Whenever a point with an infinite coordinate is evaluated, every returned objective (or constraint) value is +infinity; with a NaN but no infinite coordinate every returned value is NaN. In both cases the underlying function is not evaluated, nothing is counted as an evaluation and the best observed value does not change. Every point with only finite coordinates does reach the underlying function, and the given point is never modified.',
    over=['inputs', 'configurations'], text='all points (every bit pattern of every coordinate), all dimensions, all numbers of objectives and constraints, every underlying function',
    why='Tests evaluate a handful of NaN/inf points of one suite; the claim is about every position, sign and mixture of non-finite coordinates in any dimension.',
    files=['src/coco_problem.c', 'src/coco_utilities.c'],
    mechanism=[('non-finite guards of the objective evaluation', 'coco_evaluate_function'), ('non-finite guards of the constraint evaluation', 'coco_evaluate_constraint_optional_update'), ('classification helpers', 'coco_is_nan, coco_is_inf, coco_vector_contains_nan, coco_vector_set_to_nan')])
ASSUMPTIONS = ['the underlying objective/constraint function is arbitrary but only writes its output vector (stub_eval/stub_cons havoc the whole vector)']
