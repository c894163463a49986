from vf.core import Proof as _P, Bounded

U = 'coco_utilities.c'
FEAS = ['coco_is_feasible/ct_feas', 'coco_vector_contains_nan/ct_vector_contains_nan', 'coco_vector_set_to_nan/ct_vector_set_to_nan', 'coco_vector_set_to_inf/ct_vector_set_to_inf']
RV = ['coco_evaluate_function/ct_inner_eval'] + FEAS
D = '((DATA *)((coco_problem_transformed_data_t *)@1->data)->data)'
N = '@1->number_of_variables'
FPV = {'evaluate_constraint': ['stub_cons']}


def loop(im, buf=D + '->BUF', extra='', n=N, lo=0, inv=(), x='@2', valid=None, **k):
    """coordinate loop; im: the documented image of coordinate @i, evaluated by a ghost statement at iteration vfg_K"""
    return dict(assigns='@i, vfg_img, vfg_set, __CPROVER_object_whole(%s)%s' % (buf, extra),
                inv=['%d <= @i && @i <= %s' % (lo, n), 'vfg_K < @i ==> (vfg_set == 1 && VF_SAME(%s[vfg_K], vfg_img))' % buf] + list(inv), dec='%s - @i' % n,
                ghost=('__CPROVER_assume(%s); ' % valid if valid else '') + 'if (@i == vfg_K) { vfg_img = %s; vfg_set = 1; }' % im, start=str(lo) if lo else None, **k)


def plain(buf=D + '->BUF', extra='', n=N, inv=()):
    return dict(assigns='@i, __CPROVER_object_whole(%s)%s' % (buf, extra), inv=['@i <= ' + n] + list(inv), dec='%s - @i' % n)


def V(name, sel, src, fn, loops, cons=False, replace=(), flags=(), nf=False, more=None, **k):
    return _P(name, 'p_vars.c', 'h_v', '%s/%s' % (fn, 'ct_cfn' if cons else 'ct_fn'), RV + list(replace), dict({src: loops} if loops else {}, **(more or {})),
              defines=['V_' + sel] + (['CONSTRAINT'] if cons else []) + (['NOFORMULA'] if nf else []), fptrs=FPV, flags=list(flags), **k)


T = 'transform_vars_'
RELI = ['vfg_K < @i ==> REL(@2[vfg_K], %s->BUF[vfg_K])' % D]
NOPTR = ['--no-pointer-check', '--no-bounds-check']
VN = '(double)(long)' + N
VERS = '((f_lunacek_bi_rastrigin_versatile_data_t *)@1->versatile_data)->x_hat'
VARS = [
    V('shift', 'SHIFT', T + 'shift.c', T + 'shift_evaluate_function', {T + 'shift_evaluate_function': [loop('@2[@i] - %s->offset[@i]' % D)]}),
    V('shift_constraint', 'SHIFT', T + 'shift.c', T + 'shift_evaluate_constraint', {T + 'shift_evaluate_constraint': [loop('@2[@i] - %s->offset[@i]' % D)]}, cons=True),
    V('scale', 'SCALE', T + 'scale.c', T + 'scale_evaluate', {T + 'scale_evaluate': [loop('@{factor} * @2[@i]', inv=['VF_SAME(@{factor}, %s->factor)' % D])]}, unwind=4),
    V('oscillate', 'OSZ', T + 'oscillate.c', T + 'oscillate_evaluate_function', {'tosz': [plain('@1->oscillated_x', n='@3', inv=['vfg_K < @i ==> REL(@2[vfg_K], @1->oscillated_x[vfg_K])'])]}, nf=True,
      functions=[T + 'oscillate_evaluate_function', 'tosz', 'tosz_uv']),
    V('oscillate_constraint', 'OSZ', T + 'oscillate.c', T + 'oscillate_evaluate_constraint', {T + 'oscillate_evaluate_constraint': [plain(extra=', @{tmp}, @{base}', inv=RELI)]}, cons=True, nf=True),
    V('asymmetric', 'ASY', T + 'asymmetric.c', T + 'asymmetric_evaluate_function', {'tasy': [plain('@1->x', n='@3', extra=', @{d}->i', inv=['vfg_K < @i ==> REL(@2[vfg_K], @1->x[vfg_K])'])]}, nf=True,
      functions=[T + 'asymmetric_evaluate_function', 'tasy', 'tasy_uv']),
    V('asymmetric_constraint', 'ASY', T + 'asymmetric.c', T + 'asymmetric_evaluate_constraint', {T + 'asymmetric_evaluate_constraint': [plain(extra=', @{exponent}', inv=RELI)]}, cons=True, nf=True),
    V('brs', 'BRS', T + 'brs.c', T + 'brs_evaluate', {T + 'brs_evaluate': [plain(extra=', @{factor}', inv=RELI)]}, nf=True),
    V('conditioning', 'COND', T + 'conditioning.c', T + 'conditioning_evaluate', {T + 'conditioning_evaluate': [plain(inv=RELI)]}, nf=True),
    V('round_step', 'ROUND', T + 'round_step.c', T + 'round_step_evaluate', {T + 'round_step_evaluate': [plain(inv=RELI)]}, nf=True),
    V('x_hat', 'XHAT', T + 'x_hat.c', T + 'x_hat_evaluate', {T + 'x_hat_evaluate': [loop('vfg_u < 0.5 ? -@2[@i] : @2[@i]', inv=['@i <= vfg_K ==> VF_SAME(%s->BUF[vfg_K], vfg_u)' % D])]}, replace=['bbob2009_unif/ct_unif'], unwind=4),
    V('x_hat_generic', 'XHATG', T + 'x_hat_generic.c', T + 'x_hat_generic_evaluate', {T + 'x_hat_generic_evaluate': [loop('2.0 * %s->sign_vector[@i] * @2[@i]' % D, inv=['vfg_K < @i ==> VF_SAME(%s[vfg_K], %s->BUF[vfg_K])' % (VERS, D)], extra=', __CPROVER_object_whole(%s)' % VERS)]}),
    V('z_hat', 'ZHAT', T + 'z_hat.c', T + 'z_hat_evaluate', {T + 'z_hat_evaluate': [loop('@2[@i] + 0.25 * (@2[@i - 1] - 2.0 * fabs(%s->xopt[@i - 1]))' % D, lo=1)]}),
    V('permutation', 'PERM', T + 'permutation.c', T + 'permutation_evaluate', {T + 'permutation_evaluate': [loop('@2[%s->P[@i]]' % D, valid='%s->P[@i] < %s' % (D, N))]}),
    V('enforce_box', 'BOX', T + 'enforce_box.c', T + 'enforce_box_evaluate_function', {T + 'enforce_box_evaluate_function': [dict(assigns='@i, vfg_wbox', inv=['@i <= ' + N, 'vfg_K < @i ==> !BOXOUT(vfg_K)'], dec=N + ' - @i', ghost='vfg_wbox = @i;')]}),
    V('discretize', 'DISC', T + 'discretize.c', T + 'discretize_evaluate_function', {T + 'discretize_evaluate_function': [plain('@{discretized_x}', n='@1->number_of_integer_variables',
        extra=', @{l}, @{u}, @{inner_l}, @{inner_u}, @{outer_l}, @{outer_u}, @{n}', inv=['@i <= vfg_K ==> VF_SAME(@{discretized_x}[vfg_K], @2[vfg_K])'])]},
      more={U: {'coco_duplicate_vector': [dict(assigns='@i, __CPROVER_object_whole(@{dst})', inv=['@i <= @2', 'vfg_K < @i ==> VF_SAME(@{dst}[vfg_K], @1[vfg_K])'], dec='@2 - @i')]}}, functions=[T + 'discretize_evaluate_function', 'coco_double_round', 'coco_double_to_int'], flags=['--no-signed-overflow-check']),
    V('inverse_permutation', 'IPERM', T + 'permutation.c', T + 'inverse_permutation_evaluate', {T + 'inverse_permutation_evaluate': [dict(plain(), ghost='__CPROVER_assume(%s->P[@i] < %s);' % (D, N))]}, nf=True),
    V('affine', 'AFF', T + 'affine.c', T + 'affine_evaluate_function', {T + 'affine_evaluate_function': [plain(extra=', @{j}'), dict(assigns='@{j}, __CPROVER_object_whole(%s->BUF)' % D, inv=['@{j} <= ' + N], dec=N + ' - @{j}')]}, flags=NOPTR, nf=True),
    V('affine_constraint', 'AFF', T + 'affine.c', T + 'affine_evaluate_constraint', {T + 'affine_evaluate_constraint': [plain(extra=', @{j}'), dict(assigns='@{j}, __CPROVER_object_whole(%s->BUF)' % D, inv=['@{j} <= ' + N], dec=N + ' - @{j}')]}, cons=True, flags=NOPTR, nf=True),
]
