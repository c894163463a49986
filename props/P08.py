from .objs import *
PROOFS = OBJS
BOUNDED = [B_TRANS(8)]

META = dict(
    title='Objective transformations evaluate once, at x, and map every objective',
    statement='A problem wrapped by an objective transformation (shift, scale, power, oscillation, boundary penalty, normalisation by dimension) evaluates the wrapped problem exactly once, at the point handed in, and returns each objective value mapped as documented: plus the offset, times the factor, to the power, oscillated (0 and the infinities stay, signs are kept), plus factor times the squared distance to the region of interest (0 inside it, never negative), the first objective times min(1, 40/dimension). Constraints and x are untouched; chains of transformations compose in the order of wrapping.',
    over=['inputs', 'configurations'], text='all points, all numbers of objectives and variables, all parameters, chains of transformations',
    why='The maps hold for every value and every number of objectives; tests compare stored values of the suites only.',
    files=['src/transform_obj_shift.c', 'src/transform_obj_scale.c', 'src/transform_obj_power.c', 'src/transform_obj_oscillate.c', 'src/transform_obj_penalize.c', 'src/transform_obj_norm_by_dim.c'],
    mechanism=[('shift', 'transform_obj_shift_evaluate_function'), ('scale', 'transform_obj_scale_evaluate_function'), ('power', 'transform_obj_power_evaluate'), ('oscillation', 'transform_obj_oscillate_evaluate'), ('penalty', 'transform_obj_penalize_evaluate'), ('normalisation', 'transform_obj_norm_by_dim_evaluate')])
ASSUMPTIONS = ['the run-time asserts y[0] >= best value in the transformations are disabled in the proofs (NDEBUG)',
               'pow, log, exp, sin are uninterpreted in the proofs, except that exp and powers of non-negative numbers are not negative and pow maps NaN to NaN; the oscillation is proved to keep 0, the infinities and the sign; its formula and the sum in the penalty are compared natively only (the proof shows: no penalty inside the region, never a negative one)',
               'penalty factor in (0, 1e6)']
