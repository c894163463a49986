from .vars import *
from .objs import B_TRANS
PROOFS = VARS
BOUNDED = [B_TRANS(7)]

META = dict(
    title='Variable transformations evaluate once, at the documented image of x',
    statement='A problem wrapped by a variable transformation (shift, scale, oscillation, asymmetry, Bueche-Rastrigin scaling, conditioning, rounding, sign changes, z-hat, permutation and its inverse, box, affine map, block rotation, discretisation) evaluates the wrapped problem exactly once per evaluation, at the documented image of x (objectives and, where the transformation applies to them, constraints), hands the values back unchanged, never modifies x, counts one evaluation and writes nothing else. Outside the box an enforced box gives +inf without evaluating; a NaN coordinate gives NaN values.',
    over=['inputs', 'configurations'], text='all points, all dimensions, all parameters of the transformations; chains of transformations',
    why='The maps act on unboundedly many coordinates and floating-point values; tests compare a few stored values of complete suites only.',
    files=['src/transform_vars_shift.c', 'src/transform_vars_scale.c', 'src/transform_vars_permutation.c', 'src/transform_vars_affine.c', 'src/transform_vars_oscillate.c', 'src/transform_vars_asymmetric.c', 'src/transform_vars_discretize.c', 'src/transform_vars_enforce_box.c', 'src/transform_vars_x_hat.c', 'src/transform_vars_z_hat.c', 'src/transform_vars_brs.c', 'src/transform_vars_conditioning.c', 'src/transform_vars_round_step.c'],
    mechanism=[('shift', 'transform_vars_shift_evaluate_function'), ('scale', 'transform_vars_scale_evaluate'), ('oscillation', 'tosz_uv'), ('asymmetry', 'tasy_uv'), ('permutation', 'transform_vars_permutation_evaluate'), ('affine', 'transform_vars_affine_evaluate_function'), ('box', 'transform_vars_enforce_box_evaluate_function'), ('discretisation', 'transform_vars_discretize_evaluate_function')])
ASSUMPTIONS = ['the run-time asserts y[0] >= best value in the transformations are disabled in the proofs (NDEBUG)',
               'pow, log, exp, sin, cos, sqrt are uninterpreted in the proofs, except that exp, sqrt and powers of non-negative numbers are not negative and pow maps NaN to NaN; of the formulas of oscillation, asymmetry, Bueche-Rastrigin, conditioning (positive condition number) and rounding the proofs show that zero stays zero, signs are kept, negative coordinates are untouched by the asymmetry and coordinates beyond one half (below 1e9) are rounded to a nearest integer; the values themselves, and those of the discretisation, are compared natively only',
               'affine maps: the proof covers the frame, the single evaluation and the values handed back; their sums, and block rotations, are compared natively only',
               'permutation entries are valid indices; bounds of discretised variables are representable as int; the pointer checks are off for the affine map (its matrix has n*n entries)']
