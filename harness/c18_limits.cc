// Contract of ranged_cast<To, From>: the value is preserved exactly, or out_of_range is thrown.
#include "open.h"
#include "crucible/limits.h"
using namespace crucible;
template <class To, class From> static void check()
{
	const From f = vc_nd<From>("f");
	bool threw = false, other = false; To t = 0;
	try { t = ranged_cast<To>(f); } catch (const std::out_of_range &) { threw = true; } catch (...) { other = true; }
	// mathematical comparison in a type that holds every value of both
	const __int128 v = f, lo = std::numeric_limits<To>::min(), hi = std::numeric_limits<To>::max();
	const bool fits = v >= lo && v <= hi;
	vc_assert(!other, "C18.exception-type: a conversion that does not fit raises out_of_range");
	vc_assert(threw == !fits, "C18.exact: throws exactly when the value is not representable");
	vc_assert(threw || other || static_cast<__int128>(t) == v, "C18.value: the converted value equals the original");
	vc_cover("done");
}
#define FOR(To, From, n) VC_HARNESS(h_cast_##n) { check<To, From>(); }
VC_HARNESS(h_cast_u64) { check<uint64_t, int64_t>(); check<uint64_t, int32_t>(); check<uint64_t, uint32_t>(); check<uint64_t, uint64_t>(); check<uint64_t, int8_t>(); check<uint64_t, uint8_t>(); check<uint64_t, int16_t>(); check<uint64_t, uint16_t>(); check<uint64_t, long long>(); check<unsigned long long, uint64_t>(); }
VC_HARNESS(h_cast_s64) { check<int64_t, uint64_t>(); check<int64_t, int32_t>(); check<int64_t, uint32_t>(); check<int64_t, int64_t>(); check<int64_t, uint8_t>(); check<int64_t, int8_t>(); check<int64_t, uint16_t>(); check<int64_t, int16_t>(); check<long long, int64_t>(); check<long long, uint64_t>(); }
VC_HARNESS(h_cast_u32) { check<uint32_t, int64_t>(); check<uint32_t, uint64_t>(); check<uint32_t, int32_t>(); check<uint32_t, uint32_t>(); check<uint32_t, int8_t>(); check<uint32_t, uint16_t>(); }
VC_HARNESS(h_cast_s32) { check<int32_t, int64_t>(); check<int32_t, uint64_t>(); check<int32_t, uint32_t>(); check<int32_t, int8_t>(); check<int32_t, uint16_t>(); }
VC_HARNESS(h_cast_16) { check<uint16_t, uint64_t>(); check<uint16_t, int64_t>(); check<uint16_t, int32_t>(); check<uint16_t, uint32_t>(); check<uint16_t, int16_t>(); check<int16_t, uint64_t>(); check<int16_t, int64_t>(); check<int16_t, int32_t>(); check<int16_t, uint16_t>(); }
VC_HARNESS(h_cast_8) { check<uint8_t, uint64_t>(); check<uint8_t, int64_t>(); check<uint8_t, int32_t>(); check<uint8_t, uint32_t>(); check<uint8_t, int8_t>(); check<int8_t, uint64_t>(); check<int8_t, int64_t>(); check<int8_t, int32_t>(); check<int8_t, uint8_t>(); }
