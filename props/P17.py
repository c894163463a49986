from .stack import *
PROOFS = STACK + LINEAR
BOUNDED = [Bounded('stacks', 'b_stack.c', defines=['VF_P=17'], standin=True, cbmc=False, search_iters=3000000, search_secs=20,
                   bound='random stacks of up to 6 linear constraints (9 variables); random problems of bbob-constrained (up to 20 variables), bbob-biobj, bbob-biobj-ext; 20 s')]

META = dict(
    title='Composite problems are exactly their components, side by side',
    statement='For all numbers of objectives and constraints of its two components and every point, a composite (stacked) problem returns the first component\'s objective values followed by the second\'s, and likewise for the constraints; each component that has values to contribute is evaluated exactly once, at the point handed in, and nothing else is written. A composite problem has the sizes and box it was given, the feasible initial solution of the component that has constraints, the ideal point from the components\' optima and (two objectives) the nadir point from cross-evaluating them. A linear constraint is the inner product of its gradient with the shifted point; made feasible for a direction it is flipped exactly if that direction violates it, in every coordinate. A problem of the constrained suite has its documented number of active constraints (1, 2, 6, 6+n/2, 6+n or 6+3n) and half as many inactive ones; its initial solution and its known optimum are feasible, a constraint is active at the optimum and no feasible point is better.',
    over=['inputs', 'configurations'], text='all numbers of objectives, constraints and variables, all points (contracts); random stacks and problems of the composite suites (native harness)',
    why='All constrained and bi-objective problems are such composites; tests look at a few points of a few of them.',
    files=['src/coco_problem.c', 'src/c_linear.c', 'src/suite_cons_bbob_problems.c', 'src/suite_biobj_utilities.c'],
    mechanism=[('evaluation of composites', 'coco_problem_stacked_evaluate_function, coco_problem_stacked_evaluate_constraint'), ('creation', 'coco_problem_stacked_allocate'), ('linear constraints', 'c_sum_variables_evaluate, c_linear_single_evaluate, c_guarantee_feasible_point'), ('suites of composites', 'coco_get_cons_bbob_problem, coco_get_biobj_problem')])
ASSUMPTIONS = ['a component evaluated through coco_evaluate_function / coco_evaluate_constraint_optional_update writes its values and nothing else (assumed contract; P01 and P02 prove it for the wrappers)',
               'coco_problem_allocate, coco_strconcat and coco_duplicate_vector by stubs and contracts; the name, id and type strings are not specified',
               'up to VF_NMAX variables and values; two objectives in all where the nadir point is specified',
               'the feasibility of initial solution and optimum of the constrained suite are covered by the native harness only']
