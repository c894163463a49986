from .common import *
PROOFS = SCALARS + VECTORS + [ISFINITE] + EVALS(2) + GET
BOUNDED = [B_EVAL(2)]

META = dict(
    title='Evaluation counters, best observed value and target-hit flag are exact',
    statement='Evaluating a finite point calls the underlying function exactly once, hands its values back unchanged and raises the evaluation counter by exactly one; constraint evaluations are counted separately, only when requested, and feasibility tests are never counted. The best observed value changes exactly when the new first objective value is smaller and (with constraints) the point satisfies every constraint, and then records that value and the number of the current evaluation. The final target counts as hit exactly when at least one evaluation was made and the best observed value is at most best value plus target precision of a single-objective problem.',
    over=['inputs', 'histories', 'configurations'], text='all points, all values of the underlying functions, all counter states (hence by induction every history of evaluations), any number of objectives and constraints',
    why='Tests check counters after a few evaluations of real suites; the claim is inductive over all histories and all function/constraint values.',
    files=['src/coco_problem.c', 'src/coco_utilities.c'],
    mechanism=[('bookkeeping', 'coco_evaluate_function'), ('constraint counter', 'coco_evaluate_constraint_optional_update, coco_evaluate_constraint'), ('feasibility for the best value', 'coco_is_feasible'), ('target test and getters', 'coco_problem_final_target_hit, coco_problem_get_*')])
ASSUMPTIONS = ['the underlying objective/constraint function is arbitrary but only writes its output vector (stub_eval/stub_cons havoc the whole vector)']
