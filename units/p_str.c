/* Contracts on the functions that read option strings. Strings are arrays of arbitrary length with ghost lengths:
 * vfg_o / vfg_lo: the option string (base), vfg_s / vfg_ls: the key. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include <ctype.h>
static const char *vfg_o, *vfg_s;
static size_t vfg_lo, vfg_ls, vfg_wj;
static char *vfg_buf; static size_t vfg_nbuf;
static long vfg_r0, vfg_r1; static int vfg_finds, vfg_reads; static long vfg_pos;
#define LEN(p) (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(vfg_o) ? vfg_lo - __CPROVER_POINTER_OFFSET(p) : __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(vfg_s) ? vfg_ls : (size_t)1)
#define SP(c) ((c) == ' ' || ((c) >= '\t' && (c) <= '\r'))
#define AL(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#undef strlen
#undef isspace
#undef isalpha
#undef sscanf
#define strlen(p) LEN(p)
#define isspace(c) SP(c)
#define isalpha(c) AL(c)
static int vf_scan(const char *s) { int r; vfg_reads++; vfg_pos = (long)__CPROVER_POINTER_OFFSET(s); VF_ASSERT(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(vfg_o), "the value is read from the option string"); VF_ASSUME(r >= -1 && r <= 1); return r; }
#define sscanf(s, ...) vf_scan(s)
#define COLON (vfg_r0 + vfg_r1)
#include "coco_utilities.c"
#define STR(p, n) __CPROVER_r_ok(p, (n) + 1)
#define FIRST(p, q, r) \
__CPROVER_ensures(r == -1 || (r >= 0 && (size_t)r + LEN(q) <= LEN(p))) \
__CPROVER_ensures(r >= 0 ==> p[r] == q[0]) \
__CPROVER_ensures(r >= 0 && vfg_J < LEN(q) ==> p[r + (long)vfg_J] == q[vfg_J])
/* index of the first occurrence of seq, -1 if there is none */
long ct_strfind(const char *base, const char *seq)
__CPROVER_requires(STR(base, LEN(base)) && STR(seq, LEN(seq)) && LEN(base) <= VF_NMAX && LEN(seq) >= 1 && LEN(seq) <= VF_NMAX)
__CPROVER_assigns(vfg_wj)
FIRST(base, seq, VF_RET)
__CPROVER_ensures((vfg_K + LEN(seq) <= LEN(base) && (VF_RET < 0 || vfg_K < (size_t)VF_RET)) ==> (vfg_wj < LEN(seq) && base[vfg_K + vfg_wj] != seq[vfg_wj]))
;
/* the same, as used by the readers: the results of the first and second search are remembered */
long ct_strfind_use(const char *base, const char *seq)
__CPROVER_requires(STR(base, LEN(base)) && STR(seq, LEN(seq)) && LEN(base) <= VF_NMAX && LEN(seq) >= 1 && LEN(seq) <= VF_NMAX)
__CPROVER_requires(vfg_finds == 0 ? (base == vfg_o && seq == vfg_s) : (vfg_finds == 1 && base == vfg_o + vfg_r0 && seq[0] == ':'))
__CPROVER_assigns(vfg_r0, vfg_r1, vfg_finds)
FIRST(base, seq, VF_RET)
__CPROVER_ensures(vfg_finds == VF_OLD(vfg_finds) + 1 && (VF_OLD(vfg_finds) == 0 ? vfg_r0 == VF_RET : vfg_r1 == VF_RET && vfg_r0 == VF_OLD(vfg_r0)))
;
#define READ_ENS(ret) \
__CPROVER_ensures(ret >= 0 && ret <= 1 && vfg_reads <= 1 && (vfg_reads == 0 ==> ret == 0)) \
__CPROVER_ensures(vfg_finds >= 1 && vfg_r0 < 0 ==> vfg_reads == 0) \
__CPROVER_ensures(vfg_reads == 1 ==> (vfg_finds == 2 && vfg_r0 >= 0 && vfg_r1 >= 0 && vfg_o[COLON] == ':' && vfg_pos > COLON && vfg_pos <= (long)vfg_lo)) \
__CPROVER_ensures(vfg_reads == 1 ==> !SP(vfg_o[vfg_pos])) \
__CPROVER_ensures(vfg_reads == 1 && (long)vfg_K > COLON && (long)vfg_K < vfg_pos ==> SP(vfg_o[vfg_K]))
/* behind the first occurrence of the key, its colon and white space - or nothing is read */
int ct_read(const char *options, const char *name, const char *format, void *pointer)
__CPROVER_requires(vfg_finds == 0 && vfg_reads == 0 && options == vfg_o && name == vfg_s && STR(options, vfg_lo) && STR(name, vfg_ls) && vfg_lo <= VF_NMAX && vfg_ls >= 1 && vfg_ls <= VF_NMAX && options[vfg_lo] == 0 && !SP(name[0]))
__CPROVER_assigns(vfg_r0, vfg_r1, vfg_finds, vfg_reads, vfg_pos)
READ_ENS(VF_RET)
;
int ct_read_string(const char *options, const char *name, char *pointer)
__CPROVER_requires(vfg_finds == 0 && vfg_reads == 0 && options == vfg_o && name == vfg_s && STR(options, vfg_lo) && STR(name, vfg_ls) && vfg_lo <= VF_NMAX && vfg_ls >= 1 && vfg_ls <= VF_NMAX && options[vfg_lo] == 0 && !SP(name[0]))
__CPROVER_assigns(vfg_r0, vfg_r1, vfg_finds, vfg_reads, vfg_pos)
READ_ENS(VF_RET)
;
/* the buffer holds as many characters as the option string: nothing is written beyond it */
int ct_read_values(const char *options, const char *name, char *pointer)
__CPROVER_requires(vfg_finds == 0 && options == vfg_o && name == vfg_s && STR(options, vfg_lo) && STR(name, vfg_ls) && vfg_lo <= VF_NMAX && vfg_ls >= 1 && vfg_ls <= VF_NMAX && options[vfg_lo] == 0 && !SP(name[0]))
__CPROVER_requires(__CPROVER_w_ok(pointer, vfg_lo + 1))
__CPROVER_assigns(vfg_r0, vfg_r1, vfg_finds, __CPROVER_object_upto(pointer, vfg_lo + 1))
__CPROVER_ensures(VF_RET >= 0 && VF_RET <= (int)vfg_lo)
__CPROVER_ensures(vfg_finds >= 1 && vfg_r0 < 0 ==> VF_RET == 0)
__CPROVER_ensures(VF_RET > 0 ==> (pointer[VF_RET] == 0 && vfg_o[COLON] == ':'))
__CPROVER_ensures((long)vfg_K < (long)VF_RET ==> (pointer[vfg_K] != 0 && !SP(pointer[vfg_K]) && !AL(pointer[vfg_K])))
;
size_t ct_count(const size_t *numbers, const size_t max_count, const char *name)
__CPROVER_requires(max_count <= VF_NMAX && __CPROVER_r_ok(numbers, max_count * sizeof(size_t)))
__CPROVER_assigns()
__CPROVER_ensures(VF_RET < max_count && numbers[VF_RET] == 0 && (vfg_K < VF_RET ==> numbers[vfg_K] != 0))
;
int ct_to_int(const double number)
__CPROVER_requires(number >= -2147483648.0 && number <= 2147483647.0)
__CPROVER_assigns()
__CPROVER_ensures((double)VF_RET - number <= 0.5 && number - (double)VF_RET <= 0.5)
;
size_t ct_to_size(const double number)
__CPROVER_requires(number >= 0 && number <= 4503599627370496.0)
__CPROVER_assigns()
__CPROVER_ensures((double)VF_RET - number <= 0.5 && number - (double)VF_RET <= 0.5)
;
static char vfg_key[] = "key";
void h(void) {
  char *o, *s;
  vfg_lo = nd_size(); vfg_ls = nd_size(); VF_ASSUME(vfg_lo <= VF_NMAX && vfg_ls >= 1 && vfg_ls <= VF_NMAX);
  o = VF_ARR(char, vfg_lo + 1); s = VF_ARR(char, vfg_ls + 1);
  vfg_o = o; vfg_s = s; vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K <= VF_NMAX && vfg_J < vfg_ls);
  vfg_finds = vfg_reads = 0; VF_ASSUME(!SP(s[0]));
#if defined(S_FIND)
  { long r = coco_strfind(o, s); if (r > 3 && vfg_ls > 2) VF_REACH("found"); if (r < 0 && vfg_ls < vfg_lo) VF_REACH("not found"); }
#elif defined(S_READ)
  { int v, r; VF_ASSUME(o[vfg_lo] == 0); r = coco_options_read(o, s, "%i", &v); if (vfg_reads) VF_REACH("read"); if (!vfg_reads) VF_REACH("not read"); }
#elif defined(S_STRING)
  { int r; char *b = VF_ARR(char, vfg_lo + 1); VF_ASSUME(o[vfg_lo] == 0); r = coco_options_read_string(o, s, b); if (vfg_reads) VF_REACH("read"); if (!vfg_reads) VF_REACH("not read"); }
#elif defined(S_VALUES)
  { int r; char *b = VF_ARR(char, vfg_lo + 1); VF_ASSUME(o[vfg_lo] == 0); r = coco_options_read_values(o, s, b); if (r > 2) VF_REACH("read"); if (r == 0) VF_REACH("not read"); }
#elif defined(S_COUNT)
  { size_t m = nd_size(), r; size_t *v; VF_ASSUME(m > 0 && m <= VF_NMAX); v = VF_ARR(size_t, m); vfg_error_allowed = 1; r = coco_count_numbers(v, m, "x"); if (r > 2) VF_REACH("three numbers"); }
#elif defined(S_INT)
  { double v = nd_double(); int r; VF_ASSUME(v >= -2147483648.0 && v <= 2147483647.0); r = coco_double_to_int(v); if (r < -3) VF_REACH("negative"); }
#elif defined(S_SIZE)
  { double v = nd_double(); size_t r; VF_ASSUME(v >= 0 && v <= 4503599627370496.0); r = coco_double_to_size_t(v); if (r > 3) VF_REACH("positive"); }
#endif
}
