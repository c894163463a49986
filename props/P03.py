from .common import *
PROOFS = SCALARS + [ISFINITE, FEAS]
BOUNDED = [B_EVAL(3)]

META = dict(
    title='Feasibility verdict: finite and no constraint value above zero',
    statement='A point is judged feasible exactly when all its coordinates are finite and none of the constraint values computed for it is greater than zero. The test evaluates the constraints at most once and only at that point, never touches any evaluation counter, and hands back exactly the computed values when a vector for them is supplied.',
    over=['inputs', 'configurations'], text='all points, all constraint values (including NaN and infinities), all numbers of constraints including none',
    why='Tests look at a few points of a few constrained problems; which constraint in which position is violated, and by what value, is unbounded.',
    files=['src/coco_utilities.c'], mechanism=[('feasibility test', 'coco_is_feasible'), ('finiteness of the point', 'coco_vector_isfinite')])
ASSUMPTIONS = ['the constraint function is arbitrary but only writes its output vector']
