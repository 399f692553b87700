// Contract primitives.  In the proof build (irvc/emit.py) these become CBMC
// obligations/assumptions; in the native build (irvc/vc_native.cc) they read
// a recorded counterexample (or a random one) and check it on the real code.
#ifndef VC_H
#define VC_H
#include <cstdint>
#include <cstddef>
extern "C" {
	void vc_assert(bool cond, const char *label);   // obligation
	void vc_assume(bool cond);                      // precondition / assumed contract
	void vc_cover(const char *label);               // vacuity guard: must be reachable
	uint64_t vc_nd_u64(const char *name);           // universally quantified input
	double vc_nd_double(const char *name);
	void *vc_alloc(size_t n);                       // fresh storage, unconstrained content in the proof
	bool vc_same_object(const void *a, const void *b);
	uint64_t vc_pointer_offset(const void *a);
	bool vc_symbolic();                             // true in the proof, false in native replay
	bool vc_readable(const void *p, size_t n);
}
template <class T> static inline T vc_nd(const char *name) { return static_cast<T>(vc_nd_u64(name)); }
static inline bool vc_nd_bool(const char *name) { return vc_nd_u64(name) & 1; }
static inline uint64_t vc_nd_range(uint64_t lo, uint64_t hi, const char *name) {
	uint64_t v = vc_nd_u64(name);
	if (!vc_symbolic() && (v < lo || v > hi)) v = lo + (hi - lo == ~0ULL ? v : v % (hi - lo + 1));
	vc_assume(v >= lo && v <= hi);
	return v;
}
// like vc_nd_range; the native search prefers values up to small
#ifdef VC_NATIVE
extern "C" uint64_t vc_nd_near(uint64_t lo, uint64_t small, const char *name);
static inline uint64_t vc_nd_small(uint64_t lo, uint64_t hi, uint64_t small, const char *name) { uint64_t v = vc_nd_near(lo, small, name); if (v < lo || v > hi) v = lo + (hi - lo == ~0ULL ? v : v % (hi - lo + 1)); return v; }
#else
static inline uint64_t vc_nd_small(uint64_t lo, uint64_t hi, uint64_t, const char *name) { return vc_nd_range(lo, hi, name); }
#endif
#define VC_HARNESS(name) extern "C" __attribute__((used)) void name()
#endif
