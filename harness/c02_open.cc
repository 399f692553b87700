// Contracts of opening by id: the file opened is the one that was asked for, inside its subvolume, read-only.
#include "fdmodel.h"
#include "src/bees-roots.cc"
#include "lib/fd.cc"
#include "crucible/openat2.h"
using namespace crucible;
extern "C" {
uint64_t g_root, g_ino, g_parent, g_dirid, g_npaths, g_rootfd, g_registered, g_nopath, g_item;
// the last descriptor opened and what is behind it
uint64_t g_opens, g_cur, g_cur_ino, g_cur_root, g_cur_dev, g_root_dev, g_cur_attr, g_cur_dir, g_stage, g_bad, g_flags_bad;
alignas(16) uint64_t g_roots[(sizeof(BeesRoots) + 7) / 8];
static BeesRoots &roots() { return *reinterpret_cast<BeesRoots *>(g_roots); }
#ifdef VC_NATIVE
std::string g_paths[4];
#else
alignas(8) char g_paths[1];	// only addresses matter
#endif
static int opened(int dir, uint64_t flags)
{
	// which directory the name is looked up in
	vc_assert(dir == int(g_stage == 2 ? g_cur : g_rootfd), "C02.dir: names are looked up in the subvolume's own root or the directory found there");
	vc_assert((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "C02.read-only: user files and directories are opened read-only");
	vc_assert((flags & O_NOFOLLOW) && (flags & O_CLOEXEC), "C02.nofollow: symbolic links are not followed");
	if (vc_nd_bool("open fails")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	++g_opens; g_cur = 100 + (g_opens & 0xffff);
	g_cur_ino = vc_nd_range(1, ~0ULL, "inode found"); g_cur_root = vc_nd<uint64_t>("root found"); g_cur_dev = vc_nd<uint64_t>("device found"); g_cur_attr = vc_nd<uint64_t>("attributes found") & 0x7fffffff;
	if (g_stage == 1) g_stage = 2;
	return g_cur;
}
long vcx_openat2(int dir, const char *, const open_how *how, size_t n)
{
	vc_assert(n == sizeof(open_how), "C02.how-size");
	vc_assert((how->resolve & (RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS)) == (RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS), "C02.beneath: a path never leads out of the subvolume");
	if (vc_nd_bool("no openat2")) { errno = ENOSYS; return -1; }
	return opened(dir, how->flags);
}
int vcx_openat64(int dir, const char *, int flags, ...) { return opened(dir, flags); }
int vcx_openat(int dir, const char *, int flags, ...) { return opened(dir, flags); }
__attribute__((used)) void h_stat_fd(Stat *self, int fd)
{
	if (vc_nd_bool("stat fails")) throw std::runtime_error("stat");
	if (fd == int(g_rootfd)) { self->st_ino = 256; self->st_dev = g_root_dev; return; }
	if (fd != int(g_cur)) g_bad = 1;
	self->st_ino = g_cur_ino; self->st_dev = g_cur_dev;
}
__attribute__((used)) uint64_t h_root_id(int fd) { if (vc_nd_bool("lookup fails")) throw std::runtime_error("root id"); if (fd != int(g_cur)) g_bad = 1; return g_cur_root; }
__attribute__((used)) int h_iflags(int fd) { if (vc_nd_bool("getflags fails")) throw std::runtime_error("iflags"); if (fd != int(g_cur)) g_bad = 1; return g_cur_attr; }
// the kernel's list of paths of an inode
__attribute__((used)) bool h_ino_path(BtrfsIoctlInoPathArgs *a, int fd)
{
	vc_assert(fd == int(g_rootfd), "C02.lookup-root: paths are looked up in the right subvolume");
	vc_assert(a->inum == (g_stage == 3 ? g_ino : g_dirid), "C02.lookup-ino: paths of the right inode are looked up");
	if (vc_nd_bool("no path")) { errno = vc_nd_range(1, 133, "errno"); return false; }
	if (g_stage == 0) g_stage = 1;
#ifdef VC_NATIVE
	for (uint64_t i = 0; i < g_npaths; ++i) a->m_paths.push_back(std::string("p"));
#else
	struct V { char *b, *e, *c; }; V &v = *reinterpret_cast<V *>(&a->m_paths);
	v.b = g_paths; v.c = v.e = g_paths + g_npaths * sizeof(std::string);
#endif
	return true;
}
#ifndef VC_NATIVE
bool inv_path(const char *p) { return vc_same_object(p, g_paths) && vc_pointer_offset(p) <= g_npaths * sizeof(std::string) && vc_pointer_offset(p) % sizeof(std::string) == 0; }
__attribute__((used)) void h_str_copy(std::string *to, const std::string &from) { vc_assert(vc_same_object(&from, g_paths) && vc_pointer_offset(reinterpret_cast<const char *>(&from)) < g_npaths * sizeof(std::string), "C02.path: the path is one of the kernel's answer"); }
__attribute__((used)) void h_ipa(BtrfsIoctlInoPathArgs *a, uint64_t ino, size_t) { a->inum = ino; }
__attribute__((used)) void h_fileid(BeesFileId *f, uint64_t root, uint64_t ino) { f->m_root = root; f->m_ino = ino; }
__attribute__((used)) void h_str_end(std::string *) { }
__attribute__((used)) const char *h_cstr(const std::string *) { return g_paths; }
__attribute__((used)) void h_vec_end(std::vector<std::string> *) { }
__attribute__((used)) std::string &h_vec_at(std::vector<std::string> *v, size_t i) { if (i >= g_npaths) throw std::out_of_range("at"); return *reinterpret_cast<std::string *>(g_paths + i * sizeof(std::string)); }
#endif
__attribute__((used)) Fd h_open_root(BeesRoots *, uint64_t root)
{
	vc_assert(root == (g_stage == 3 ? g_root : g_parent), "C02.open-root: the subvolume asked for (or the one that contains it) is opened");
	Fd f; fd_model(&f, g_registered & 2 ? -1 : int(g_rootfd)); return f;
}
// temporary files are registered by id
struct Node { char h[32]; char kv[sizeof(std::pair<const BeesFileId, Fd>)]; };
alignas(16) Node g_node;
__attribute__((used)) std::map<BeesFileId, Fd>::iterator h_find(std::map<BeesFileId, Fd> *m, const BeesFileId &id)
{
	vc_assert(id.root() == g_root && id.ino() == g_ino, "C02.tmp-key: temporary files are looked up by the id asked for");
	if (g_registered & 1) return std::map<BeesFileId, Fd>::iterator(reinterpret_cast<std::_Rb_tree_node_base *>(&g_node));
	return m->end();
}
__attribute__((used)) BtrfsTreeItem h_backref(BtrfsRootFetcher *, uint64_t root)
{
	vc_assert(root == g_root, "C02.backref: the parent of the subvolume asked for is looked up");
	BtrfsTreeItem i; i.m_type = g_item ? BTRFS_ROOT_BACKREF_KEY : 0; i.m_objectid = g_item ? g_root : 0; i.m_offset = g_item ? g_parent : 0; i.m_transid = g_item ? 1 : 0;
	return i;
}
__attribute__((used)) uint64_t h_dirid(BtrfsTreeItem *) { return g_dirid; }
__attribute__((used)) std::string h_name(BtrfsTreeItem *) { return std::string(); }
__attribute__((used)) bool h_item_none(BtrfsTreeItem *i) { return !g_item; }
__attribute__((used)) void h_fetcher(BtrfsRootFetcher *, const Fd &) { }
__attribute__((used)) void h_fetcher_end(BtrfsRootFetcher *) { }
__attribute__((used)) Fd h_ctx_root(BeesContext *) { Fd f; fd_model(&f, 7); return f; }
}
static void setup()
{
	g_rootfd = 50; g_cur = 51; g_opens = g_bad = 0; g_registered = vc_nd_range(0, 3, "registered"); g_item = vc_nd_bool("has backref");
	g_root = vc_nd_range(5, ~0ULL, "root"); g_ino = vc_nd_range(256, ~0ULL, "ino"); g_parent = vc_nd_range(5, ~0ULL, "parent"); g_dirid = vc_nd_bool("at top") ? 256 : vc_nd_range(257, ~0ULL, "dirid");
	g_npaths = vc_nd_range(0, vc_symbolic() ? 100000 : 4, "paths"); g_root_dev = vc_nd<uint64_t>("device of root"); g_cur_ino = g_cur_root = g_cur_dev = g_cur_attr = 0;
}
VC_HARNESS(h_open_file)
{
	setup(); g_stage = 3;
	auto &kv = *reinterpret_cast<std::pair<BeesFileId, Fd> *>(g_node.kv); kv.first = BeesFileId(g_root, g_ino); fd_model(&kv.second, 60);
	bool t = false; int fd = -1;
	try { Fd rv = roots().open_root_ino_nocache(g_root, g_ino); fd = rv; } catch (...) { t = true; }
	if (t) { vc_cover("failed"); return; }
	vc_assert(!g_bad, "C02.examined: only the descriptor just opened is examined");
	if (g_registered & 1) { vc_assert(fd == 60, "C02.tmp: a registered temporary file is found by its id"); vc_cover("temporary"); return; }
	vc_assert(!(g_registered & 2) || fd < 0, "C02.no-root: no file is opened if its subvolume cannot be opened");
	if (fd >= 0) {
		vc_assert(g_opens > 0 && fd == int(g_cur), "C02.opened: the file returned was opened by this call");
		vc_assert(g_cur_ino == g_ino, "C02.inode: the file has the inode number asked for");
		vc_assert(g_cur_root == g_root, "C02.subvol: the file belongs to the subvolume asked for");
		vc_assert(g_cur_dev == g_root_dev, "C02.device: the file is on the filesystem of its subvolume");
		vc_assert(!(g_cur_attr & FS_NOCOW_FL), "C02.nocow: files that cannot be deduplicated are not opened");
		vc_cover("opened");
	} else vc_cover("none");
}
VC_HARNESS(h_open_subvol)
{
	setup(); g_stage = 0;
	bool t = false; int fd = -1;
	try { Fd rv = roots().open_root_nocache(g_root); fd = rv; } catch (...) { t = true; }
	if (t) { vc_cover("failed"); return; }
	vc_assert(!g_bad, "C02.examined: only the descriptor just opened is examined");
	if (g_root == 5) { vc_assert(fd == 7, "C02.top: the top-level subvolume is the one bees was started on"); vc_cover("top"); return; }
	vc_assert((g_item && !(g_registered & 2)) || fd < 0, "C02.no-parent: a subvolume without a reachable parent is not opened");
	if (fd >= 0) {
		vc_assert(fd == int(g_cur) && g_opens > 0 && (g_dirid == 256 || g_stage == 2), "C02.subvol-opened: the subvolume returned was opened by this call, by way of its directory");
		vc_assert(g_cur_root == g_root && g_cur_ino == 256, "C02.subvol-id: the directory returned is the root of the subvolume asked for");
		if (g_dirid == 256) vc_cover("at top"); else vc_cover("below");
	} else vc_cover("none");
}
