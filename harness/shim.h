// Included before every source when compiling for symbolic execution only.
// CBMC's C front end does not type __atomic_* builtins on pointer operands;
// the generic forms below have the same meaning.
#ifndef VF_SHIM_H
#define VF_SHIM_H
#ifdef VF_STEP
// other threads act between the atomic operations of the one that is followed
extern void vf_step(void);
#define __atomic_fetch_add(p, v, o) ({ vf_step(); __typeof__(*(p)) vf_o = *(p); *(p) = vf_o + (v); vf_o; })
#define __atomic_add_fetch(p, v, o) ({ vf_step(); *(p) = *(p) + (v); *(p); })
#define __atomic_fetch_sub(p, v, o) ({ vf_step(); __typeof__(*(p)) vf_o = *(p); *(p) = vf_o - (v); vf_o; })
#define __atomic_sub_fetch(p, v, o) ({ vf_step(); *(p) = *(p) - (v); *(p); })
#define __atomic_load_n(p, o) ({ vf_step(); *(p); })
#define __atomic_store_n(p, v, o) ({ vf_step(); *(p) = (v); (void)0; })
#define __atomic_compare_exchange_n(p, e, d, w, so, fo) ({ vf_step(); _Bool vf_ok = (*(p) == *(e)); if (vf_ok) *(p) = (d); else *(e) = *(p); vf_ok; })
#elif defined(VF_SYMBOLIC)
#define __atomic_fetch_add(p, v, o) ({ __CPROVER_atomic_begin(); __typeof__(*(p)) vf_o = *(p); *(p) = vf_o + (v); __CPROVER_atomic_end(); vf_o; })
#define __atomic_add_fetch(p, v, o) ({ __CPROVER_atomic_begin(); *(p) = *(p) + (v); __typeof__(*(p)) vf_o = *(p); __CPROVER_atomic_end(); vf_o; })
#define __atomic_fetch_sub(p, v, o) ({ __CPROVER_atomic_begin(); __typeof__(*(p)) vf_o = *(p); *(p) = vf_o - (v); __CPROVER_atomic_end(); vf_o; })
#define __atomic_sub_fetch(p, v, o) ({ __CPROVER_atomic_begin(); *(p) = *(p) - (v); __typeof__(*(p)) vf_o = *(p); __CPROVER_atomic_end(); vf_o; })
#define __atomic_load_n(p, o) ({ __CPROVER_atomic_begin(); __typeof__(*(p)) vf_o = *(p); __CPROVER_atomic_end(); vf_o; })
#define __atomic_store_n(p, v, o) ({ __CPROVER_atomic_begin(); *(p) = (v); __CPROVER_atomic_end(); (void)0; })
#define __atomic_compare_exchange_n(p, e, d, w, so, fo) ({ __CPROVER_atomic_begin(); _Bool vf_ok = (*(p) == *(e)); if (vf_ok) *(p) = (d); else *(e) = *(p); __CPROVER_atomic_end(); vf_ok; })
#endif
#endif
