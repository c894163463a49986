/* Contracts on the NaN/inf helpers of coco_utilities.c */
int ct_is_nan(const double x)
__CPROVER_assigns()
__CPROVER_ensures((VF_RET != 0) == VF_NAN(x))
;
int ct_is_inf(const double x)
__CPROVER_assigns()
__CPROVER_ensures((VF_RET != 0) == VF_INF(x))
;
int ct_vector_contains_nan(const double *x, const size_t dim)
__CPROVER_requires(dim <= VF_NMAX && __CPROVER_r_ok(x, dim * sizeof(double)))
__CPROVER_assigns(vfg_wnan)
__CPROVER_ensures((VF_RET == 0 && vfg_K < dim) ==> !VF_NAN(x[vfg_K]))
__CPROVER_ensures(VF_RET != 0 ==> (vfg_wnan < dim && VF_NAN(x[vfg_wnan])))
;
void ct_vector_set_to_nan(double *y, const size_t dim)
__CPROVER_requires(dim <= VF_NMAX && __CPROVER_w_ok(y, dim * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(y, dim * sizeof(double)))
__CPROVER_ensures(vfg_J < dim ==> VF_NAN(y[vfg_J]))
;
void ct_vector_set_to_inf(double *y, const size_t dim)
__CPROVER_requires(dim <= VF_NMAX && __CPROVER_w_ok(y, dim * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(y, dim * sizeof(double)))
__CPROVER_ensures(vfg_J < dim ==> VF_PINF(y[vfg_J]))
;
int ct_vector_isfinite(const double *x, const size_t dim)
__CPROVER_requires(dim <= VF_NMAX && __CPROVER_r_ok(x, dim * sizeof(double)))
__CPROVER_assigns(vfg_wfin)
__CPROVER_ensures((VF_RET != 0 && vfg_K < dim) ==> VF_FIN(x[vfg_K]))
__CPROVER_ensures(VF_RET == 0 ==> (vfg_wfin < dim && !VF_FIN(x[vfg_wfin])))
;
