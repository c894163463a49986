/* Ghost state.  vfg_K, vfg_J: arbitrary indices, chosen once per proof and never assigned afterwards; a
 * contract clause "vfg_K < n ==> P(a[vfg_K])" therefore means "for all k < n: P(a[k])".
 * vfg_w*: witnesses for existential clauses, assigned only by ghost statements spliced into loops. */
static size_t vfg_K, vfg_J;
static size_t vfg_wnan, vfg_winf, vfg_wfin, vfg_wg;
static double vfg_gval;
static long vfg_from;
#define VF_NMAX 1000000 /* keeps n*sizeof(double) far from address-space wrap; not an unwinding bound */
