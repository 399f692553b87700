// Native runtime of the contract primitives: runs a harness on the real,
// natively compiled code with concrete inputs (a verifier counterexample, or a
// search seeded by one).  usage: prog replay FILE | prog search SECONDS SEED HINTFILE OUTFILE WANTED
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ctime>
#include <fcntl.h>
extern "C" void VC_ENTRY();
namespace {
	struct Shared { int status; char label[240]; uint32_t n; uint64_t v[4096]; };
	Shared *sh;
	std::vector<uint64_t> in, hint;
	size_t pos; bool replay; uint64_t rs;
	const char *wanted = "";
	uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
	uint64_t gen() {
		switch (rnd() % 12) {
			case 0: return rnd() % 2;
			case 1: case 2: return rnd() % 8;
			case 3: return rnd() % 300;
			case 4: return (rnd() % 40) * 4096;
			case 5: { uint64_t v = 1ULL << (rnd() % 64); return v + rnd() % 3 - 1; }
			case 6: return rnd() >> (rnd() % 64);
			case 7: return -(rnd() % 5);
			case 8: return (1ULL << 63) - (rnd() % 9000);
			case 9: return sh->n ? sh->v[rnd() % sh->n] + (rnd() % 5 - 2) : 0;
			case 10: return hint.empty() ? rnd() % 4 : hint[rnd() % hint.size()];
			default: return sh->n ? sh->v[sh->n - 1] : rnd() % 4;
		}
	}
	void done(int st, const char *label) {
		sh->status = st;
		snprintf(sh->label, sizeof(sh->label), "%s", label);
		_exit(st);
	}
	void onsig(int s) { char b[64]; snprintf(b, sizeof(b), "abort-reached: signal %d", s); done(3, b); }
	int mode;
}
extern "C" {
	void vc_assert(bool c, const char *label) { if (!c) done(1, label); }
	void vc_assume(bool c) { if (!c) done(2, "assumption not met"); }
	void vc_cover(const char *) {}
	uint64_t vc_nd_u64(const char *) {
		uint64_t v = 0;
		if (replay) v = pos < in.size() ? in[pos] : 0;
		else if (mode == 0) v = pos < hint.size() ? hint[pos] : gen();
		else if (mode == 1) v = (pos < hint.size() && rnd() % 8) ? hint[pos] : gen();
		else v = gen();
		++pos;
		if (sh->n < 4096) sh->v[sh->n++] = v;
		else done(2, "input too long");
		return v;
	}
	uint64_t vc_nd_near(uint64_t lo, uint64_t small, const char *n) { uint64_t v = vc_nd_u64(n); if (!replay && mode == 2 && sh->n) sh->v[sh->n - 1] = v = lo + rnd() % (small - lo + 1); return v; }
	double vc_nd_double(const char *n) {
		uint64_t v = vc_nd_u64(n); double d;
		if (!replay && mode && rnd() % 2) { d = (double)(int64_t)v / (double)(1 + rnd() % 1000); memcpy(&v, &d, 8); sh->v[sh->n - 1] = v; }
		memcpy(&d, &v, 8); return d;
	}
	void *vc_alloc(size_t n) { return calloc(1, n ? n : 1); }
	bool vc_symbolic() { return false; }
	bool vc_same_object(const void *, const void *) { return true; }
	bool vc_readable(const void *, size_t) { return true; }
	uint64_t vc_pointer_offset(const void *) { return 0; }
}
static int once() {
	sh->n = 0; sh->status = 0; sh->label[0] = 0; pos = 0;
	pid_t p = fork();
	if (!p) {
		struct rlimit rl = { 4ULL << 30, 4ULL << 30 }; setrlimit(RLIMIT_AS, &rl);
		alarm(5);
		int fd = open("/dev/null", O_WRONLY);
		if (fd >= 0) { dup2(fd, 1); if (!getenv("VC_ERR")) dup2(fd, 2); }
		for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE }) signal(s, onsig);
		try { VC_ENTRY(); } catch (...) { done(4, "uncaught exception"); }
		done(0, "");
	}
	int st = 0; waitpid(p, &st, 0);
	return sh->status;
}
int main(int argc, char **argv) {
	sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto rd = [](const char *f, std::vector<uint64_t> &v) { if (FILE *fp = fopen(f, "r")) { unsigned long x; while (fscanf(fp, "%lu", &x) == 1) v.push_back(x); fclose(fp); } };
	if (argc == 3 && !strcmp(argv[1], "replay")) {
		replay = true; rd(argv[2], in);
		int st = once();
		printf("status=%d label=%s\n", st, sh->label);
		fflush(stdout); _exit(st == 1 || st == 3 ? 1 : 0);	// no destructors: the harness may have replaced what they use
	}
	if (argc < 6) return 2;
	const double secs = atof(argv[2]); rs = strtoull(argv[3], 0, 0) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	rd(argv[4], hint);
	time_t t0 = time(0); unsigned long n = 0, valid = 0;
	for (;;) {
		mode = n == 0 ? 0 : (n % 3 == 1 && !hint.empty()) ? 1 : 2;
		for (int i = 0; i < 64; ++i) rnd();
		int st = once(); ++n;
		if (st != 2) ++valid;
		if (st == 1 || st == 3) {
			FILE *fp = fopen(argv[5], "w");
			for (uint32_t i = 0; i < sh->n; ++i) fprintf(fp, "%lu\n", (unsigned long)sh->v[i]);
			fclose(fp);
			printf("FOUND trials=%lu status=%d label=%s\n", n, st, sh->label);
			fflush(stdout); _exit(1);
		}
		if (time(0) - t0 >= secs) break;
	}
	printf("NONE trials=%lu valid=%lu\n", n, valid);
	fflush(stdout); _exit(0);
}
