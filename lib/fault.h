// A caller's allocator which checks what is asked of it, and can be made to fail at a chosen allocation.
#pragma once
#include <setjmp.h>
#include <signal.h>
extern "C" {
#include <fsm/alloc.h>
}
struct FaultAlloc {
	struct fsm_alloc a;
	std::unordered_map<void *, size_t> live; std::vector<void *> quarantine;
	std::string bad;             // first misuse
	long count = 0, failat = -1; bool after = false, failed = false;
	static const size_t PAD = 16;
	FaultAlloc() { a.free = sfree; a.calloc = scalloc; a.malloc = smalloc; a.realloc = srealloc; a.opaque = this; }
	bool trip() { long k = count++; if (failat >= 0 && (k == failat || (after && k > failat))) { failed = true; return true; } return false; }
	void *give(size_t z, int fill) { unsigned char *p = (unsigned char *) malloc(z + 2 * PAD); memset(p, 0xC5, PAD); memset(p + PAD, fill, z); memset(p + PAD + z, 0xC5, PAD); live[p + PAD] = z; return p + PAD; }
	bool intact(void *q, size_t z) { unsigned char *p = (unsigned char *) q; for (size_t i = 0; i < PAD; i++) if (p[-1 - (long) i] != 0xC5 || p[z + i] != 0xC5) return false; return true; }
	void misuse(const std::string &s) { if (bad.empty()) bad = s; }
	void take(void *q) {
		if (!q) return;
		auto it = live.find(q);
		if (it == live.end()) { misuse("a block was freed twice, or was never given by this allocator"); return; }
		if (!intact(q, it->second)) misuse(fmt("wrote outside a block of %zu bytes", it->second));
		memset(q, 0xDB, it->second); live.erase(it); quarantine.push_back((unsigned char *) q - PAD);
		if (quarantine.size() > 4096) { for (void *p : quarantine) free(p); quarantine.clear(); }
	}
	void check() { for (auto &x : live) if (!intact(x.first, x.second)) misuse(fmt("wrote outside a block of %zu bytes", x.second)); }
	void reset() { for (auto &x : live) free((unsigned char *) x.first - PAD); for (void *p : quarantine) free(p); live.clear(); quarantine.clear(); bad.clear(); count = 0; failat = -1; after = failed = false; }
	void forget() { live.clear(); quarantine.clear(); bad.clear(); count = 0; failat = -1; after = failed = false; } // after a crash
	static void sfree(void *o, void *p) { ((FaultAlloc *) o)->take(p); }
	static void *smalloc(void *o, size_t z) { auto f = (FaultAlloc *) o; return f->trip() ? nullptr : f->give(z, 0xA5); }
	static void *scalloc(void *o, size_t n, size_t z) { auto f = (FaultAlloc *) o; return f->trip() ? nullptr : f->give(n * z, 0); }
	static void *srealloc(void *o, void *p, size_t z) {
		auto f = (FaultAlloc *) o; if (f->trip()) return nullptr;
		size_t old = 0; if (p) { auto it = f->live.find(p); if (it == f->live.end()) { f->misuse("a block was resized which this allocator did not give"); return nullptr; } old = it->second; }
		void *n = f->give(z, 0xA5); if (p) { memcpy(n, p, old < z ? old : z); f->take(p); } return n;
	}
};
// run code which may crash: a failed assertion or a signal ends it and is reported
static sigjmp_buf guard_env; static volatile int guard_on; static std::string guard_why;
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
	const char *b = strrchr(f, '/'); std::string w = fmt("assertion failed in %s: %s", fn, e);
	if (guard_on) { guard_why = w; guard_on = 0; siglongjmp(guard_env, 1); }
	fprintf(stderr, "%s (%s:%u)\n", w.c_str(), b ? b + 1 : f, l); abort();
}
static void guard_sig(int s) { if (guard_on) { guard_on = 0; guard_why = fmt("signal %d", s); siglongjmp(guard_env, 1); } signal(s, SIG_DFL); raise(s); }
static void guard_init() {
	static char stk[1 << 16]; stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) { struct sigaction sa = {}; sa.sa_handler = guard_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
}
template <class F> static bool guarded(F f) { guard_why.clear(); if (sigsetjmp(guard_env, 1)) return false; guard_on = 1; f(); guard_on = 0; return true; }
