// Contract of locating the bucket and the extent of a hash.
#include "open.h"
#include "src/bees-hash.cc"
using namespace crucible;
static uint64_t g_table[(sizeof(BeesHashTable) + 7) / 8];
VC_HARNESS(h_locate)
{
	BeesHashTable &t = *reinterpret_cast<BeesHashTable *>(g_table);
	const uint64_t extents = vc_nd_range(1, 1 << 16, "extents"), size = extents * BLOCK_SIZE_HASHTAB_EXTENT, hash = vc_nd<uint64_t>("hash");
	uint8_t *const base = static_cast<uint8_t *>(vc_alloc(vc_symbolic() ? size : extents % 8 * BLOCK_SIZE_HASHTAB_EXTENT + 1));
	t.m_byte_ptr = base; t.m_byte_ptr_end = base + size; t.m_size = size; t.m_buckets = size / BLOCK_SIZE_HASHTAB_BUCKET; t.m_extents = extents;
	const uint64_t bucket = hash % t.m_buckets;
	bool threw = false; std::pair<BeesHashTable::Cell *, BeesHashTable::Cell *> c; std::pair<uint8_t *, uint8_t *> e; uint64_t i = 0;
	try { c = t.get_cell_range(hash); e = t.get_extent_range(hash); i = t.hash_to_extent_index(hash); } catch (...) { threw = true; }
	vc_assert(!threw, "C03.locate-total: every hash has a place");
	if (threw) return;
	const uint8_t *const cb = reinterpret_cast<uint8_t *>(c.first), *const ce = reinterpret_cast<uint8_t *>(c.second);
	vc_assert(cb == base + bucket * BLOCK_SIZE_HASHTAB_BUCKET && ce == cb + BLOCK_SIZE_HASHTAB_BUCKET, "C03.locate-bucket: the place of a hash is one whole bucket, determined by the hash");
	vc_assert(bucket * BLOCK_SIZE_HASHTAB_BUCKET + BLOCK_SIZE_HASHTAB_BUCKET <= size, "C03.locate-inside: the bucket is inside the table");
	vc_assert(i == bucket / (BLOCK_SIZE_HASHTAB_EXTENT / BLOCK_SIZE_HASHTAB_BUCKET) && i < extents, "C03.locate-extent: the extent of a hash is inside the table");
	vc_assert(e.first == base + i * BLOCK_SIZE_HASHTAB_EXTENT && e.second == e.first + BLOCK_SIZE_HASHTAB_EXTENT, "C03.locate-range: the extent of a hash is the one with its number");
	vc_assert(bucket * BLOCK_SIZE_HASHTAB_BUCKET >= i * BLOCK_SIZE_HASHTAB_EXTENT && bucket * BLOCK_SIZE_HASHTAB_BUCKET < (i + 1) * BLOCK_SIZE_HASHTAB_EXTENT, "C03.locate-consistent: the bucket of a hash is in its extent");
	if (i > 1) vc_cover("later extent"); else vc_cover("first extent");
}
