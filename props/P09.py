from .meta import *
PROOFS = META_PROOFS + GETS
BOUNDED = [B_TRANS(9)]

META = dict(
    title='Wrapping a problem keeps its metadata and carries the known optimum along',
    statement='A transformed problem has the dimension, numbers of objectives, constraints and integer variables, region of interest, id, type, suite position and target precision of the problem it wraps, in storage of its own. The known optimum follows the transformation: shifting x shifts the best parameter and the initial solution, scaling divides it, sign changes and orthogonal affine maps are inverted, transformations that cannot be followed keep a best parameter of zero and mark any other as unknown (NaN); variable transformations keep the best value, objective shifts and scales are applied to it, power and oscillation give the value of the best parameter. The initial solution handed out is the problem\'s own or, if it has none, the centre of the region of interest with integer coordinates rounded; asking for the best parameter of a single-objective problem that has one hands out a copy of it and marks the problem tainted, and does nothing otherwise.',
    over=['inputs', 'configurations'], text='all problems, dimensions and parameters; chains of transformations',
    why='The final target of every benchmark problem is computed from this bookkeeping, over chains of up to seven transformations of arbitrary dimension.',
    files=['src/coco_problem.c', 'src/transform_vars_shift.c', 'src/transform_vars_scale.c', 'src/transform_vars_affine.c', 'src/transform_vars_x_hat.c', 'src/transform_vars_brs.c', 'src/transform_vars_conditioning.c', 'src/transform_vars_asymmetric.c', 'src/transform_obj_shift.c', 'src/transform_obj_scale.c'],
    mechanism=[('copy of the metadata', 'coco_problem_duplicate'), ('initial solution', 'coco_problem_get_initial_solution'), ('best parameter', 'coco_problem_get_best_parameter'), ('zero test', 'coco_problem_best_parameter_not_zero'), ('shift', 'transform_vars_shift'), ('scale', 'transform_vars_scale'), ('affine', 'transform_vars_affine'), ('sign change', 'transform_vars_x_hat'), ('objective shift', 'transform_obj_shift'), ('objective scale', 'transform_obj_scale')])
ASSUMPTIONS = ['in the proofs on constructors coco_problem_transformed_allocate is an executable stub that returns a copy of the wrapped problem; the copying is proved separately (coco_problem_duplicate); coco_strdup is taken to return an equal string',
               'in the contract on coco_problem_get_initial_solution rounding is an uninterpreted function (assumed contract on coco_double_round)',
               'the orthogonal inverse in transform_vars_affine and the division in transform_vars_scale are compared natively only']
