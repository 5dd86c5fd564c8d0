// Contract intrinsics. In the verifier (lsvc) they are symbolic; in a native
// build (replay / failing-input search) they are ordinary functions.
#ifndef VP_H_
#define VP_H_
#include <stdint.h>
#include <stddef.h>
#include <new>
extern "C" {
uint8_t vp_u8(void);                 // any value
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
bool vp_bool(void);
uint64_t vp_range(uint64_t lo, uint64_t hi);   // any value in [lo,hi]
uint32_t vp_choice(uint32_t n);      // case split 0..n-1, concrete on every path
uint64_t vp_concrete(uint64_t v);    // case split over the feasible values of v
void vp_assume(bool c);              // precondition
void vp_assert(bool c, const char *name);   // obligation
void vp_cover(const char *name);     // must be reachable (vacuity guard)
void vp_end(void) __attribute__((noreturn));   // end of this path
void *vp_alloc(size_t n);            // fresh block, arbitrary contents
void *vp_array(size_t es, size_t n); // fresh array, arbitrary contents, n may be symbolic
void vp_havoc(void *p, size_t n);
void vp_havoc_array(void *p);        // forget the contents of a vp_array block (verifier only)
bool vp_and(bool a, bool b);         // no case split
bool vp_or(bool a, bool b);
bool vp_implies(bool a, bool b);
uint64_t vp_ite64(bool c, uint64_t a, uint64_t b);
int vp_symbolic(void);               // 1 in the verifier, 0 natively
// induction over histories: between begin and end, every cell of the object
// that does not return to its value is arbitrary
void vp_cycle_begin(void *p, size_t n, const char *key);
void vp_cycle_end(void *p, size_t n, const char *key);
// inside an invariant function named by //@loop
void vp_inv(bool c, const char *name);
void vp_cand(uint64_t v);
void vp_candp(const void *v);
// uninterpreted function of two arguments (a specification function)
uint64_t vp_fun(uint32_t id, uint64_t a, uint64_t b);
}
#define VP_ENSURES(c) vp_assert((c), #c)
#define VP_REQUIRES(c) vp_assume((c))
#define VP_HARNESS(n) extern "C" void n()
#endif
