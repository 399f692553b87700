// Contracts of BeesAddress: the 64-bit encoding of a physical block.
#include "open.h"
#include "src/bees-types.cc"
using BA = BeesAddress;
static const uint64_t PHYS_MAX = 1ULL << 62;
static Extent any_extent()
{
	Extent e;
	e.m_begin = vc_nd<off_t>("begin"); e.m_end = vc_nd<off_t>("end"); e.m_physical = vc_nd<uint64_t>("physical");
	e.m_flags = vc_nd<uint64_t>("flags"); e.m_offset = vc_nd<off_t>("eoff");
	e.m_physical_len = vc_nd<off_t>("plen"); e.m_logical_len = vc_nd<off_t>("llen");
	// kernel contract: an extent is a byte range of a file at a physical address below 2^62
	vc_assume(e.m_flags < (1ULL << 35)); // no flag is defined above OBSCURED
	vc_assume(e.m_begin >= 0 && e.m_end >= 0 && e.m_end <= (1LL << 62) && e.m_physical < PHYS_MAX);
	return e;
}
struct Enc { bool threw; uint64_t a; };
static Enc encode(const Extent &e, off_t o)
{
	Enc r { false, 0 };
	try { r.a = BA(e, o); } catch (...) { r.threw = true; }
	return r;
}
// PREALLOC and OBSCURED extents have a physical position (bees.h: "not magic enough")
static bool special(const Extent &e) { return e.m_flags & ~uint64_t(Extent::PREALLOC | Extent::OBSCURED | FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED); }
static bool in_extent(const Extent &e, off_t o) { return o >= e.m_begin && o < e.m_end; }
// physical position of file offset o within the decoded extent data
static uint64_t ext_pos(const Extent &e, off_t o) { return uint64_t(o - e.m_begin) + uint64_t(e.m_offset); }

VC_HARNESS(h_addr_encode)
{
	const Extent e = any_extent(); const off_t o = vc_nd<off_t>("offset");
	vc_assume(in_extent(e, o));
	// a compressed file extent decodes to at most 128K (on-disk format)
	if (e.m_flags & FIEMAP_EXTENT_ENCODED) vc_assume(e.m_end - e.m_begin <= BLOCK_SIZE_MAX_COMPRESSED_EXTENT);
	const Enc r = encode(e, o);
	vc_cover("encoded");
	const bool aligned = !(e.m_physical & 4095) && !(e.m_begin & 4095) && !(o & 4095);
	if (!aligned) { vc_assert(r.threw, "C09.unaligned: an unaligned position has no address"); return; }
	const BA a(r.a);
	if (special(e)) {
		vc_assert(!r.threw, "C09.special: an extent that is not plain data gets a marker, not an exception");
		vc_assert(a.is_magic() && a.get_physical_or_zero() == 0, "C09.special-marker: holes, inline, delayed and unrecognized extents never yield a physical address");
		vc_assert(!(e.m_flags & Extent::HOLE) || r.a == BA::HOLE, "C09.hole: a hole is reported as a hole");
		vc_assert(r.a != BA::ZERO, "C09.special-set: the marker is not the uninitialized value");
		if (!(e.m_flags & Extent::HOLE)) {
			const uint64_t known = Extent::PREALLOC | Extent::OBSCURED | FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC | FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED | FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE;
			const bool unusable = (e.m_flags & ~known) || (e.m_flags & (FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE));
			vc_assert(r.a == (unusable ? BA::UNUSABLE : BA::DELALLOC), "C09.marker-kind: unusable data and not yet allocated data are told apart");
		}
		vc_assert(!a.is_compressed() && !a.has_compressed_offset() && !a.is_toxic() && !a.is_unaligned_eof(), "C09.special-flags: a marker carries no flags");
		vc_cover("special"); return;
	}
	const bool enc = e.m_flags & FIEMAP_EXTENT_ENCODED;
	const bool bad = e.m_physical == 0 || (enc && ((e.m_offset & 4095) || e.m_offset < 0 || e.m_offset >= BLOCK_SIZE_MAX_COMPRESSED_EXTENT || ext_pos(e, o) >= uint64_t(BLOCK_SIZE_MAX_COMPRESSED_EXTENT)));
	vc_assert(r.threw == bad, "C09.total: every aligned block of a plain extent has an address, malformed extents are rejected");
	if (r.threw) return;
	vc_cover("plain");
	vc_assert(!a.is_magic(), "C09.plain: a data block has a physical address");
	vc_assert(!a.is_toxic(), "C09.not-toxic: a fresh address is not toxic");
	vc_assert(a.is_compressed() == enc && a.has_compressed_offset() == enc, "C09.compressed: compression is recorded exactly");
	if (enc) {
		vc_assert(a.get_physical_or_zero() == e.m_physical, "C09.physical-compressed: decoding gives the start of the extent");
		vc_assert(a.get_compressed_offset() == ext_pos(e, o), "C09.offset-compressed: decoding gives the position inside the extent");
		vc_cover("compressed");
	} else {
		vc_assert(a.get_physical_or_zero() == e.m_physical + uint64_t(o - e.m_begin), "C09.physical: decoding gives the block's physical position");
	}
	const bool last = (e.m_flags & FIEMAP_EXTENT_LAST) && (e.m_end & 4095) && o + 4096 > e.m_end;
	vc_assert(a.is_unaligned_eof() == last, "C09.eof: exactly the partial last block of a file is marked");
}
// two blocks have the same address only if they are the same physical block
VC_HARNESS(h_addr_injective)
{
	const Extent e = any_extent(), f = any_extent(); const off_t o = vc_nd<off_t>("o"), p = vc_nd<off_t>("p");
	vc_assume(in_extent(e, o) && in_extent(f, p));
	if (e.m_flags & FIEMAP_EXTENT_ENCODED) vc_assume(e.m_end - e.m_begin <= BLOCK_SIZE_MAX_COMPRESSED_EXTENT);
	if (f.m_flags & FIEMAP_EXTENT_ENCODED) vc_assume(f.m_end - f.m_begin <= BLOCK_SIZE_MAX_COMPRESSED_EXTENT);
	const Enc r = encode(e, o), s = encode(f, p);
	if (r.threw || s.threw || BA(r.a).is_magic() || BA(s.a).is_magic()) return;
	vc_cover("two");
	if (BA(r.a) == BA(s.a)) {
		const bool re = e.m_flags & FIEMAP_EXTENT_ENCODED, se = f.m_flags & FIEMAP_EXTENT_ENCODED;
		vc_assert(re == se, "C09.distinct-kind: compressed and plain blocks never share an address");
		if (re) vc_assert(e.m_physical == f.m_physical && ext_pos(e, o) == ext_pos(f, p), "C09.distinct-compressed: equal addresses mean the same block of the same extent");
		else vc_assert(e.m_physical + uint64_t(o - e.m_begin) == f.m_physical + uint64_t(p - f.m_begin), "C09.distinct: equal addresses mean the same physical block");
	}
}
VC_HARNESS(h_addr_toxic)
{
	const uint64_t v = vc_nd<uint64_t>("addr"); BA a(v); bool threw = false;
	try { a.set_toxic(); } catch (...) { threw = true; }
	vc_assert(threw == (v < BA::LAST), "C09.toxic-magic: markers cannot be made toxic");
	const BA b(v);
	if (threw) { vc_assert(uint64_t(a) == v, "C09.toxic-unchanged: a rejected mark changes nothing"); return; }
	vc_cover("toxic");
	vc_assert(a.is_toxic(), "C09.toxic-set: the toxic mark is visible");
	vc_assert(a.get_physical_or_zero() == b.get_physical_or_zero(), "C09.toxic-physical: the toxic mark keeps the physical position");
	vc_assert(a.is_compressed() == b.is_compressed() && a.has_compressed_offset() == b.has_compressed_offset() && a.is_unaligned_eof() == b.is_unaligned_eof(), "C09.toxic-flags: the toxic mark keeps the other flags");
	if (b.has_compressed_offset()) vc_assert(a.get_compressed_offset() == b.get_compressed_offset(), "C09.toxic-offset: the toxic mark keeps the position inside the extent");
	// offset access without an offset is rejected, not garbage
	bool t2 = false; try { (void)b.get_compressed_offset(); } catch (...) { t2 = true; }
	vc_assert(t2 == !b.has_compressed_offset(), "C09.offset-guard: the position inside an extent exists only for compressed addresses that carry one");
}
VC_HARNESS(h_addr_compare)
{
	const BA a(vc_nd<uint64_t>("a")), b(vc_nd<uint64_t>("b"));
	vc_assert((a == b) == (b == a), "C09.eq-symmetric");
	vc_assert(a == a, "C09.eq-reflexive");
	vc_assert((a != b) == !(a == b), "C09.neq");
	vc_assert(!(a < b && b < a), "C09.lt-asymmetric");
	vc_assert((a < b || b < a) == !(a == b), "C09.lt-total: two addresses are ordered exactly when they differ");
	if (a == b && !a.is_magic() && !b.is_magic()) {
		vc_assert((a.get_physical_or_zero() & ~uint64_t(4095)) == (b.get_physical_or_zero() & ~uint64_t(4095)), "C09.eq-physical: equal addresses are in the same physical block");
		if (a.has_compressed_offset() && b.has_compressed_offset()) vc_assert(a.get_compressed_offset() == b.get_compressed_offset(), "C09.eq-offset: equal compressed addresses are the same block of the extent");
	}
	if (a == BA::ZERO) vc_assert(a.is_magic() || (uint64_t(a) & ~BA::c_offset_mask) == 0, "C09.zero");
	vc_cover("cmp");
}
