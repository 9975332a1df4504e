// P34, lx -C: whatever way its threads are scheduled, lx gives what it gives with one.
// WITH: lx
// LIBS: -fsanitize=thread -fno-builtin
// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock -lm
// lx's own main runs with its threads as coroutines of one process; who goes on is decided at thread creation and exit, before taking
// and after releasing a mutex, and before accesses found to race (by vector clocks, over every access lx and the library make).
// All schedules up to a number of preemptions are run.
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include "ref.h"
extern "C" int lx_main(int, char **);
static const int MAXT = 10; static const size_t STK = 8u << 20;
struct Th { ucontext_t uc; bool used, done; int joining, waiting; void *(*fn)(void *); void *arg, *rv; int err; pthread_mutex_t *want; unsigned vc[MAXT]; };
static Th th[MAXT]; static int nth, cur = -1; static std::map<pthread_mutex_t *, int> owner; static std::map<pthread_mutex_t *, std::vector<unsigned>> mvc;
// shared with the parent: the decisions to take, those taken, the places which race
struct Sh { long nd, dec[4000]; long nt; struct { short opts, def, chose; } t[4000]; long npc; uintptr_t pc[512]; long races, points, accesses; char bad[400]; };
static Sh *sh;
static bool runnable(int i) { Th &t = th[i]; if (!t.used || t.done) return false; if (t.joining >= 0 && !th[t.joining].done) return false; if (t.want && owner.count(t.want)) return false; return true; }
// who goes on? option 0 is to go on as we are
static void choose() {
	std::vector<int> o; if (cur >= 0 && runnable(cur)) o.push_back(cur); bool free_ = o.empty(); for (int i = 0; i < nth; i++) if (i != cur && runnable(i)) o.push_back(i);
	sh->points++; if (o.empty()) { strcpy(sh->bad, "deadlock"); _exit(77); }
	int k = 0; if (o.size() > 1 && sh->nt < 4000) { if (sh->nt < sh->nd) k = sh->dec[sh->nt]; if (k >= (int) o.size()) k = 0; sh->t[sh->nt].opts = o.size(); sh->t[sh->nt].def = free_; sh->t[sh->nt].chose = k; sh->nt++; }
	int to = o[k]; if (to == cur) return; int from = cur; th[from].err = errno; cur = to; swapcontext(&th[from].uc, &th[to].uc); errno = th[cur].err;
}
static void join_vc(unsigned *a, const unsigned *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
// ---- races ----
struct Cell { unsigned char wt; unsigned wc; unsigned rc[MAXT]; }; static std::unordered_map<uintptr_t, Cell> cells; static bool quiet; static uintptr_t seen_pc;
static bool racy_pc(uintptr_t pc) { for (long i = 0; i < sh->npc; i++) if (sh->pc[i] == pc) return true; return false; }
static void note(uintptr_t pc) { if (pc && !racy_pc(pc) && sh->npc < 512) sh->pc[sh->npc++] = pc; }
static std::unordered_map<uintptr_t, uintptr_t> lastpc;
static char *stk[MAXT];
static void access_(uintptr_t a, size_t n, int w, uintptr_t pc) {
	if (cur < 0 || quiet || nth < 2) return; if (stk[cur] <= (char *) a && (char *) a < stk[cur] + STK) return; sh->accesses++;
	if (racy_pc(pc)) choose();
	quiet = true; Th &t = th[cur]; for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) { Cell &c = cells[g]; bool race = false; if (c.wc && c.wt != cur && c.wc > t.vc[c.wt]) race = true; if (w) for (int i = 0; i < nth; i++) if (i != cur && c.rc[i] > t.vc[i]) race = true; if (race) { sh->races++; note(pc); note(lastpc[g]); } if (w) { c.wt = cur; c.wc = t.vc[cur]; memset(c.rc, 0, sizeof c.rc); } else c.rc[cur] = t.vc[cur]; lastpc[g] = pc; } quiet = false;
}
static void fresh(void *p, size_t n) { if (quiet || !p || cur < 0 || nth < 2) return; quiet = true; for (uintptr_t g = (uintptr_t) p >> 2; g <= ((uintptr_t) p + n - 1) >> 2; g++) { cells.erase(g); lastpc.erase(g); } quiet = false; }
extern "C" {
#define PC (uintptr_t) __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { access_((uintptr_t) p, n, 0, PC); } void __tsan_write##n(void *p) { access_((uintptr_t) p, n, 1, PC); } void __tsan_unaligned_read##n(void *p) { access_((uintptr_t) p, n, 0, PC); } void __tsan_unaligned_write##n(void *p) { access_((uintptr_t) p, n, 1, PC); } void __tsan_volatile_read##n(void *p) { access_((uintptr_t) p, n, 0, PC); } void __tsan_volatile_write##n(void *p) { access_((uintptr_t) p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access_((uintptr_t) p, n, 0, PC); } void __tsan_write_range(void *p, size_t n) { if (n) access_((uintptr_t) p, n, 1, PC); }
void __tsan_func_entry(void *) { } void __tsan_func_exit(void) { } void __tsan_init(void) { } void __tsan_vptr_update(void **, void *) { } void __tsan_vptr_read(void **) { }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (n) fresh(p, n); return p; } void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (n * m) fresh(p, n * m); return p; } void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (n && p != o) fresh(p, n); return p; }
static void entry(int i) { errno = 0; th[i].rv = th[i].fn(th[i].arg); th[i].done = true; choose(); abort(); }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void *), void *arg) { if (nth >= MAXT) return EAGAIN; int i = nth++; Th &t = th[i]; t.used = true; t.done = false; t.joining = -1; t.want = nullptr; t.fn = fn; t.arg = arg; t.err = 0; memset(t.vc, 0, sizeof t.vc); join_vc(t.vc, th[cur].vc); t.vc[i] = 1; th[cur].vc[cur]++; if (!stk[i]) stk[i] = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); getcontext(&t.uc); t.uc.uc_stack.ss_sp = stk[i]; t.uc.uc_stack.ss_size = STK; t.uc.uc_link = nullptr; makecontext(&t.uc, (void (*)()) entry, 1, i); *p = (pthread_t) i; choose(); return 0; }
int __wrap_pthread_join(pthread_t p, void **rv) { int i = (int) p; if (i < 1 || i >= nth) return ESRCH; th[cur].joining = i; if (!th[i].done) choose(); th[cur].joining = -1; join_vc(th[cur].vc, th[i].vc); if (rv) *rv = th[i].rv; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { th[cur].want = m; choose(); th[cur].want = nullptr; if (owner.count(m)) abort(); owner[m] = cur; if (mvc.count(m)) join_vc(th[cur].vc, mvc[m].data()); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { choose(); if (owner.count(m)) return EBUSY; owner[m] = cur; if (mvc.count(m)) join_vc(th[cur].vc, mvc[m].data()); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { auto it = owner.find(m); if (it == owner.end() || it->second != cur) { strcpy(sh->bad, "a mutex is unlocked by who does not hold it"); _exit(78); } owner.erase(it); auto &v = mvc[m]; v.resize(MAXT); join_vc(v.data(), th[cur].vc); th[cur].vc[cur]++; choose(); return 0; }
}
// ---- running ----
struct Res { int st; std::string out, err, bad; };
static std::string slurp(int fd) { std::string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static int fin, fout, ferr; static std::string curspec;
static Res lx(const std::string &spec, const std::vector<std::string> &args) {
	if (ftruncate(fin, 0) || ftruncate(fout, 0) || ftruncate(ferr, 0)) abort(); lseek(fin, 0, SEEK_SET); if (write(fin, spec.data(), spec.size()) != (ssize_t) spec.size()) abort(); for (int f : { fin, fout, ferr }) lseek(f, 0, SEEK_SET);
	sh->nt = 0; sh->points = 0; sh->accesses = 0; sh->bad[0] = 0; fflush(stdout); fflush(stderr); pid_t p = fork();
	if (p == 0) { alarm(60); dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2); std::vector<char *> v; static char nm[] = "lx"; v.push_back(nm); for (auto &a : args) v.push_back(strdup(a.c_str())); v.push_back(nullptr); nth = 1; th[0].used = true; th[0].joining = -1; memset(th[0].vc, 0, sizeof th[0].vc); th[0].vc[0] = 1; cur = 0; int r = lx_main(v.size() - 1, v.data()); fflush(stdout); _exit(r); }
	Res r; waitpid(p, &r.st, 0); r.out = slurp(fout); r.err = slurp(ferr); r.bad = sh->bad; return r;
}
static std::string args_str(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " " + x; return s; }
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough; sh = (Sh *) mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fin = memfd_create("in", 0); fout = memfd_create("out", 0); ferr = memfd_create("err", 0);
	static const char *specs[] = {
		"'a' -> $a; 'b' -> $b;\n",
		"'a' -> $a; '\"' -> { 'x' -> $x; '\"' -> ; }\n" + 0,
		"'a' -> $a; 'b' -> $b;\n'{' .. '}' -> $q { 'x'..'y' { 'z' -> $z; } 'c' -> $c; }\n",
		"/[a-z]+/ -> $word; /[0-9]+/ -> $num; /[ \\t\\n]+/;\n'\"' -> $open .. '\"' -> $close { /[^\"\\\\]/ -> $char; /\\\\./ -> $esc; }\n",
		"'ab' -> $ab; 'abc' -> $abc; /a|b/ -> $s; 'x' .. 'y' -> $end { 'p' -> $p; 'q' -> $q; 'r' .. 's' { 't' -> $t; } } 'u' .. 'v' { 'w' -> $w; }\n",
		"'a' -> $a; /a|b/ -> $b; 'c' -> $c;\n", // a conflict
		"'a' -> $a; 'x' .. 'y' { 'a' -> $a; /a/ -> $b; }\n",
		"'a' -> $a; /b*/ -> $b;\n", // accepts at the start
		"name = /[a-z]/; n2 = 'q' | name; n2 name* -> $id; '(' -> $op .. ')' -> $cl { name -> $in; 'Q' -> $big; }\n",
	};
	std::vector<std::vector<std::string>> opts = { { "-l", "c" }, { "-l", "dot" }, { "-l", "dump" }, { "-l", "h" }, { "-n", "-l", "dot" }, { "-Q", "-l", "c" }, { "-l", "zdot" }, { "-b", "dyn", "-l", "c", "-k", "str" } };
	for (auto spec : specs) for (auto &o : opts) for (int C : { 2, 3, 4 }) {
		if (H.stop()) break; if (!H.take()) continue; if (C == 4 && !T) continue; std::string in = spec;
		if (!H.begin([=] { return fmt("lx -C %d", C) + args_str(o) + " < " + show(in); })) continue;
		std::vector<std::string> a1 = o, a2 = o; a1.insert(a1.begin(), { "-C", "1" }); a2.insert(a2.begin(), { "-C", fmt("%d", C) }); memset(sh, 0, sizeof *sh);
		Res want = lx(in, a1); if (!want.bad.empty()) { H.fail("alone", want.bad); continue; } if (WIFEXITED(want.st) && WEXITSTATUS(want.st) == 0) H.nontrivial++; H.counters[fmt("with one thread exits %d", WEXITSTATUS(want.st))]++;
		auto strip = [&](const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 2, "0x") == 0) { r += "@"; i += 2; while (i < s.size() && isxdigit((unsigned char) s[i])) i++; i--; } else r += s[i]; } return r; };
		int bound = C == 2 ? T ? 4 : 2 : T ? 3 : 1; long cap = T ? 60000 : 500, n = 0; std::vector<long> dec; bool more = true; long pcs = -1;
		while (more) { if (sh->npc != pcs && n) { /* more places to switch at: start over */ pcs = sh->npc; dec.clear(); n = 0; } else pcs = sh->npc;
			sh->nd = dec.size(); for (size_t i = 0; i < dec.size(); i++) sh->dec[i] = dec[i];
			Res r = lx(in, a2); n++; H.traces++; H.states += sh->points; H.transitions += sh->accesses; std::string d; for (int i = 0; i < sh->nt; i++) if (sh->t[i].chose) d += fmt(" %d:%d", i, sh->t[i].chose);
			if (!r.bad.empty()) { H.fail("schedule", r.bad + " (switching at" + d + ")"); break; }
			if (r.st != want.st || strip(r.out) != strip(want.out) || strip(r.err) != strip(want.err)) { std::string w = strip(want.out), g = strip(r.out); size_t k = 0; while (k < w.size() && k < g.size() && w[k] == g[k]) k++; H.fail("result", fmt("switching at%s: status %d rather than %d, ", d.c_str(), r.st, want.st) + "stdout from " + show(g.substr(k, 60)) + " rather than " + show(w.substr(k, 60)) + ", stderr " + show(r.err.substr(0, 100)) + " rather than " + show(want.err.substr(0, 100))); break; }
			if (sh->npc != pcs) { if (n >= cap) break; continue; }
			// the next schedule: the last decision which can go another way within the bound
			std::vector<long> t; for (int i = 0; i < sh->nt; i++) t.push_back(sh->t[i].chose); more = false;
			for (int i = sh->nt - 1; i >= 0 && !more; i--) { if (sh->t[i].chose + 1 >= sh->t[i].opts) continue; int pre = 0; for (int j = 0; j < i; j++) if (sh->t[j].chose) pre++; if (pre + 1 > bound) continue; dec.assign(t.begin(), t.begin() + i); dec.push_back(t[i] + 1); more = true; }
			if (n >= cap) { H.counters["cut short"]++; break; } }
		if (sh->npc) H.counters["cases with unsynchronised accesses"]++; H.counters["unsynchronised places"] += sh->npc; }
	return H.finish();
}
