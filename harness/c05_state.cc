// Contracts of state files: replaced only by complete, synced contents; read back whole.
#include "fdmodel.h"
#define main bees_main_program
#include "src/bees.cc"
#undef main
#include "lib/fd.cc"
#include "lib/uname.cc"
using namespace crucible;
extern "C" {
uint64_t g_size, g_limit, g_done, g_state, g_tmp_fd, g_renamed, g_btrfs, g_parse, g_ver[3], g_which, g_fssize, g_dirty_name, g_err, g_fs_fail; int g_dir;
enum { NONE, EMPTY, SYNCED };
alignas(16) uint64_t g_file[(sizeof(BeesStringFile) + 7) / 8];
static BeesStringFile &file() { return *reinterpret_cast<BeesStringFile *>(g_file); }
char *g_data; char g_name[8], g_tmp[8], g_other[8];
#ifdef VC_NATIVE
static int which(const char *n) { return !strcmp(n, "state") ? 1 : *n ? 2 : 0; }
#else
static int which(const char *n) { return n == g_name ? 1 : n == g_tmp ? 2 : 0; }
struct Str { char *p; size_t n; char loc[16]; };
static void str(void *s, char *p, size_t n) { static_cast<Str *>(s)->p = p; static_cast<Str *>(s)->n = n; }
__attribute__((used)) void h_str_copy(void *to, void *from) { str(to, static_cast<Str *>(from)->p, static_cast<Str *>(from)->n); }
__attribute__((used)) void h_str_end(void *) { }
__attribute__((used)) void h_str_none(void *s) { str(s, g_other, 0); }
__attribute__((used)) char *h_str_p(void *s) { return static_cast<Str *>(s)->p; }
__attribute__((used)) size_t h_str_n(void *s) { return static_cast<Str *>(s)->n; }
__attribute__((used)) void h_str_c(void *to, const char *, void *) { str(to, g_other, 7); }
__attribute__((used)) void h_plus(void *to, void *, void *) { str(to, g_tmp, 9); }
__attribute__((used)) void h_regex(void *, const char *, unsigned) { }
__attribute__((used)) void h_regex_end(void *) { }
__attribute__((used)) void h_smatch(void *, void *) { }
__attribute__((used)) bool h_search(void *, void *, void *, unsigned) { return g_parse; }
__attribute__((used)) void *h_sub(void *, size_t i) { g_which = i; return g_other; }
__attribute__((used)) void h_sub_str(void *to, void *) { str(to, g_other, 7); }
__attribute__((used)) unsigned long h_stoul(void *, void *, int) { vc_assert(g_which == 1 || g_which == 2, "C05.version: the kernel version is the one reported"); return g_ver[g_which]; }
#endif
static uint64_t may_fail(const char *) { return vc_nd_bool("call fails"); }
int vcx_unlinkat(int dir, const char *n, int)
{
	vc_assert(dir == g_dir, "C05.dir: state files stay in their directory");
	vc_assert(which(n) == 2, "C05.keep-old: the old contents are never removed before the new ones take their place");
	if (may_fail("unlink")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	return 0;
}
int vcx_openat64(int dir, const char *n, int flags, ...)
{
	vc_assert(dir == g_dir && (flags & O_CLOEXEC), "C05.dir: state files stay in their directory");
	if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
		vc_assert(which(n) == 2, "C05.no-overwrite: the file in use is never opened for writing or truncated");
		vc_assert((flags & O_CREAT) && (flags & (O_EXCL | O_TRUNC)), "C05.fresh: new contents start from an empty file");
		if (may_fail("open")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
		g_state = EMPTY; g_done = 0; return g_tmp_fd;
	}
	vc_assert(which(n) == 1, "C05.read-name: the file in use is read");
	if (may_fail("open")) { g_err = 1; errno = vc_nd_range(1, 133, "errno"); return -1; }
	return 60;
}
int vcx_openat(int dir, const char *n, int flags, ...) { return vcx_openat64(dir, n, flags); }
ssize_t vcx_write(int fd, const void *buf, size_t n)
{
	vc_assert(fd == int(g_tmp_fd) && g_state != NONE, "C05.write-fd: contents go to the temporary file");
	vc_assert(static_cast<const char *>(buf) == g_data + g_done && n <= g_size - g_done, "C05.contents: exactly the given contents are written, in order");
	if (may_fail("write")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	const uint64_t rv = vc_nd_range(0, n, "bytes"); g_done += rv; if (rv) g_state = EMPTY;
	return rv;
}
// contract of write_or_die (C21)
__attribute__((used)) void h_write(int fd, const void *buf, size_t n)
{
	vc_assert(fd == int(g_tmp_fd) && g_state != NONE, "C05.write-fd: contents go to the temporary file");
#ifdef VC_NATIVE
	vc_assert(n <= g_size - g_done && !memcmp(buf, g_data + g_done, n), "C05.contents: exactly the given contents are written, in order");
#else
	vc_assert(static_cast<const char *>(buf) == g_data + g_done && n <= g_size - g_done, "C05.contents: exactly the given contents are written, in order");
#endif
	if (may_fail("write")) throw std::runtime_error("write");
	g_done += n; if (n) g_state = EMPTY;
}
int vcx_fstatfs(int fd, struct statfs *s)
{
	vc_assert(fd == int(g_tmp_fd), "C05.fs: the filesystem of the temporary file decides");
	if (may_fail("statfs")) { errno = 5; return -1; }
	s->f_type = g_btrfs ? BTRFS_SUPER_MAGIC : vc_nd_range(0, BTRFS_SUPER_MAGIC - 1, "magic"); return 0;
}
int vcx_fstatfs64(int fd, struct statfs *s) { return vcx_fstatfs(fd, s); }
int vcx_fsync(int fd)
{
	if (may_fail("fsync")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	if (fd == int(g_tmp_fd) && g_state != NONE) g_state = SYNCED;
	return 0;
}
int vcx_fdatasync(int fd) { return vcx_fsync(fd); }
int vcx_uname(struct utsname *u)
{
#ifdef VC_NATIVE
	if (g_parse) snprintf(u->release, sizeof(u->release), "%lu.%lu.7-x", g_ver[1], g_ver[2]); else strcpy(u->release, "unknown");
#endif
	return 0;
}
int vcx_renameat(int d1, const char *from, int d2, const char *to)
{
	vc_assert(d1 == g_dir && d2 == g_dir, "C05.dir: state files stay in their directory");
	vc_assert(which(from) == 2 && which(to) == 1, "C05.rename: the temporary file takes the place of the file in use");
	vc_assert(g_state != NONE && g_done == g_size, "C05.complete: only completely written contents take the place of the old ones");
	vc_assert(g_state == SYNCED || (g_btrfs && !(g_parse && (g_ver[1] > 5 || (g_ver[1] == 5 && g_ver[2] > 16)))), "C05.synced: contents are successfully synced before they take the place of the old ones");
	if (may_fail("rename")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	++g_renamed; g_state = NONE; return 0;
}
int vcx_renameat2(int d1, const char *from, int d2, const char *to, unsigned) { return vcx_renameat(d1, from, d2, to); }
__attribute__((used)) void h_stat_fd(Stat *self, int fd) { vc_assert(fd == 60, "C05.size: the size is the one of the file read"); if (may_fail("stat")) throw std::runtime_error("stat"); self->st_size = g_fssize; }
__attribute__((used)) std::string h_read_string(int fd, size_t n)
{
	vc_assert(fd == 60, "C05.read-fd: contents come from the file in use");
	vc_assert(n == g_fssize, "C05.read-size: the whole file is read");
	if (may_fail("read")) throw std::runtime_error("read");
	g_done = n;
#ifdef VC_NATIVE
	return std::string("contents");
#else
	std::string s; str(&s, g_data, n); return s;
#endif
}
}
static void setup()
{
	g_dir = 30; g_tmp_fd = 61; g_done = g_renamed = g_state = g_which = g_err = 0;
	g_btrfs = vc_nd_bool("btrfs"); g_parse = vc_nd_bool("version is a number"); g_ver[1] = vc_nd_range(0, 99, "major"); g_ver[2] = vc_nd_range(0, 99, "minor");
	g_limit = vc_nd_range(0, vc_symbolic() ? ~0ULL >> 1 : 20000, "limit"); g_fssize = vc_nd_range(0, ~0ULL >> 1, "file size"); g_size = vc_nd_range(0, vc_symbolic() ? ~0ULL >> 1 : 20000, "size");
	g_data = static_cast<char *>(vc_alloc(16));
	fd_model(&file().m_dir_fd, g_dir); file().m_limit = g_limit;
#ifdef VC_NATIVE
	new (&file().m_name) std::string("state");
	g_data = static_cast<char *>(malloc(g_size + 1)); for (uint64_t i = 0; i < g_size; ++i) g_data[i] = i * 7 + i / 256;
#else
	str(&file().m_name, g_name, 5);
#endif
}
static bool put()
{
	g_done = g_renamed = 0; g_state = NONE;
#ifdef VC_NATIVE
	std::string s(g_data, g_size);
#else
	alignas(8) char b[sizeof(std::string)]; str(b, g_data, g_size); std::string &s = *reinterpret_cast<std::string *>(b);
#endif
	try { file().write(s); } catch (...) { return true; }
	return false;
}
static void judge(bool t)
{
	vc_assert(g_renamed <= 1, "C05.once");
	if (!t) { vc_assert(g_renamed == 1, "C05.done: success is reported only after the new contents are in place"); vc_assert(g_size < g_limit, "C05.limit: contents that could not be read back are not written"); vc_cover("written"); }
	else { vc_assert(!g_renamed, "C05.failed: a failure leaves the old contents in place"); vc_cover("failed"); }
}
VC_HARNESS(h_state_write)
{
	setup();
	judge(put());
	// again, on another filesystem perhaps, with the same kernel
	g_btrfs = vc_nd_bool("btrfs 2");
	judge(put());
}
VC_HARNESS(h_state_read)
{
	setup();
	bool t = false; size_t n = 0;
	try { n = file().read().size(); } catch (...) { t = true; }
	if (t) { vc_assert(!g_err, "C05.absent: a file that cannot be opened counts as absent"); vc_cover("failed"); return; }
	if (g_err) { vc_assert(n == 0, "C05.absent-empty"); vc_cover("absent"); return; }
	vc_assert(g_fssize > 0 && g_fssize < g_limit && g_done == g_fssize, "C05.whole: the whole file is read, or an error raised");
	vc_cover("read");
}
