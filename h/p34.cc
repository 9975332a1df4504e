// P34: independent machines can be used concurrently.
// LIBS: -fsanitize=thread -fno-builtin
// SECTIONS: the library's static data is in sections of its own
// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -rdynamic -ldl
// The library is compiled with every memory access calling back here (__tsan_*), and its static data in sections of its own.
// 1. Every operation is run alone, recording what it reads and writes of the library's static data. Two operations which do not
//    conflict there commute at every step, so all their interleavings are one Mazurkiewicz trace: that of running one, then the other.
// 2. Where two do conflict, they are run as coroutines and switched just before accesses to what they share.
// 3. Independently of that, operations are switched at their callbacks, allocations, reads and writes to streams.
// In all of these each must give the result it gives alone.
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
static void point();
#define POINT() point()
#include "gen.h"
#include "fault.h"
#include "astread.h"
#include "conf.h"
extern "C" {
#include <re/groups.h>
#include <re/literal.h>
#include <re/strings.h>
}
// ---- the two contexts ----
static int cur = -1; // who is running: -1 is the harness
struct Cx { ucontext_t uc; char *stack, *arena; size_t used; long at, total; bool done; std::string out; int err; };
static Cx cx[2]; static ucontext_t mainuc; static const size_t STK = 8u << 20, ARENA = 1u << 30;
static std::vector<long> sched; static size_t sk; static bool on_access; // switch at accesses, rather than at explicit points
static long *shm; // how far the child got
static void swap(int to) { int e = errno; int from = cur; cx[from].err = e; cur = to; swapcontext(&cx[from].uc, &cx[to].uc); errno = cx[cur].err; }
static void step() { Cx &c = cx[cur]; long k = c.at++; if (sk < sched.size() && k == sched[sk]) { sk++; if (!cx[1 - cur].done) swap(1 - cur); } }
static void point() { if (cur >= 0 && !on_access) step(); }
// ---- allocation: the caller's allocator gives each context its own arena ----
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { point(); return __real_malloc(n); } void *__wrap_calloc(size_t n, size_t m) { point(); return __real_calloc(n, m); } void *__wrap_realloc(void *p, size_t n) { point(); return __real_realloc(p, n); } void __wrap_free(void *p) { __real_free(p); } }
static void *give(size_t n, int fill) { Cx &c = cx[cur < 0 ? 0 : cur]; n = (n + 15) & ~(size_t) 15; if (c.used + n + 16 > ARENA) { fprintf(stderr, "arena\n"); abort(); } char *p = c.arena + c.used + 16; *(size_t *) (p - 16) = n; c.used += n + 16; memset(p, fill, n); return p; }
static void a_free(void *, void *) { point(); }
static void *a_malloc(void *, size_t n) { point(); return give(n, 0xA5); }
static void *a_calloc(void *, size_t n, size_t m) { point(); return give(n * m, 0); }
static void *a_realloc(void *, void *p, size_t n) { point(); void *q = give(n, 0xA5); if (p) { size_t o = ((size_t *) p)[-2]; memcpy(q, p, o < n ? o : n); } return q; }
struct { struct fsm_alloc a; long failat, count; bool after; } FA = { { a_free, a_calloc, a_malloc, a_realloc, nullptr }, -1, 0, false };
#include "ops.h"
// ---- memory accesses ----
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
static uintptr_t dlo, dhi, blo, bhi, xlo, xhi; // x: data of loaded code
static std::unordered_map<uintptr_t, unsigned char> *log_; // 1 read, 2 written
static std::unordered_set<uintptr_t> shared; static long naccess;
static inline bool lib_static(uintptr_t a) { return (a - dlo < dhi - dlo) || (a - blo < bhi - blo) || (a - xlo < xhi - xlo); }
static uintptr_t pend; static std::string pendwas;
static void settle() { for (size_t i = 0; i < pendwas.size(); i++) (*log_)[pend + i] |= ((char *) pend)[i] != pendwas[i] ? 2 : 1; pendwas.clear(); } // a write which changes nothing is as good as a read: nothing ever has another value
static void access_(uintptr_t a, size_t n, int w) {
	if (cur < 0) return; naccess++; if (log_ && !pendwas.empty()) settle();
	if (on_access && cx[1 - cur].arena <= (char *) a && (char *) a < cx[1 - cur].arena + ARENA) for (size_t i = 0; i < n; i++) shared.insert(a + i); // the other's memory
	if (lib_static(a)) { if (log_) { if (w) { pend = a; pendwas.assign((char *) a, n); } else for (size_t i = 0; i < n; i++) (*log_)[a + i] |= 1; } }
	else if (!on_access || shared.empty()) return;
	if (on_access && shared.count(a)) step();
}
extern "C" {
#define RW(n) void __tsan_read##n(void *p) { access_((uintptr_t) p, n, 0); } void __tsan_write##n(void *p) { access_((uintptr_t) p, n, 1); } void __tsan_unaligned_read##n(void *p) { access_((uintptr_t) p, n, 0); } void __tsan_unaligned_write##n(void *p) { access_((uintptr_t) p, n, 1); } void __tsan_volatile_read##n(void *p) { access_((uintptr_t) p, n, 0); } void __tsan_volatile_write##n(void *p) { access_((uintptr_t) p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_((uintptr_t) p, n, 0); } void __tsan_write_range(void *p, size_t n) { access_((uintptr_t) p, n, 1); }
void __tsan_func_entry(void *) { } void __tsan_func_exit(void) { } void __tsan_init(void) { } void __tsan_vptr_update(void **, void *) { } void __tsan_vptr_read(void **) { }
#define AT(b, t) t __tsan_atomic##b##_load(const volatile t *p, int) { access_((uintptr_t) p, b / 8, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } void __tsan_atomic##b##_store(volatile t *p, t v, int) { access_((uintptr_t) p, b / 8, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int) { access_((uintptr_t) p, b / 8, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } t __tsan_atomic##b##_exchange(volatile t *p, t v, int) { access_((uintptr_t) p, b / 8, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
// what libc reads and writes for the library is seen as a difference, or at these
static std::string snap() { return std::string((char *) dlo, dhi - dlo) + std::string((char *) blo, bhi - blo) + (xhi > xlo ? std::string((char *) xlo, xhi - xlo) : ""); }
static uintptr_t snap_addr(size_t i) { if (i < dhi - dlo) return dlo + i; i -= dhi - dlo; if (i < bhi - blo) return blo + i; return xlo + i - (bhi - blo); }
// ---- what is run ----
struct Inst { std::string name; std::function<std::string()> f; std::string prep; };
static std::vector<Inst> insts;
static ssize_t ck_write(void *o, const char *b, size_t n) { point(); std::string *s = (std::string *) o; s->append(b, n); return n; }
static FILE *out_to(std::string *s) { cookie_io_functions_t io = { nullptr, ck_write, nullptr, nullptr }; FILE *f = fopencookie(s, "w", io); setvbuf(f, nullptr, _IONBF, 0); return f; }
static ssize_t ck_read(void *o, char *b, size_t n) { point(); MemIn *m = (MemIn *) o; size_t k = std::min(n, std::min((size_t) 3, m->n - m->i)); memcpy(b, m->p + m->i, k); m->i += k; return k; }
static FILE *in_from(MemIn *m) { cookie_io_functions_t io = { ck_read, nullptr, nullptr, nullptr }; FILE *f = fopencookie(m, "r", io); return f; }
static std::string errstr(enum re_dialect d, const struct re_err &e, const std::string &text) { std::string s = fmt("%d %d %d %s", e.e, (int) e.start.byte, (int) e.end.byte, re_strerror(e.e)); std::string o; FILE *f = out_to(&o); struct re_err c = e; re_ferror(f, d, &c, "file", text.c_str()); fclose(f); return s + o; }
static std::string comp(enum re_dialect d, const std::string &p, int fl) {
	MemIn m{ p.data(), p.size() }; struct re_err e; memset(&e, 0, sizeof e); struct fsm *f = re_comp(d, op_getc, &m, &FA.a, (enum re_flags) fl, &e);
	if (!f) return errstr(d, e, p); std::string s = extract(f).str(); if (fl == 0 && !fsm_has(f, fsm_hasepsilons)) s += " no epsilons"; if (!fsm_determinise(f) || !fsm_minimise(f)) s += " failed"; s += extract(f).str(); fsm_free(f);
	MemIn q{ p.data(), p.size() }; int an = re_is_anchored(d, op_getc, &q, (enum re_flags) fl, &e); s += fmt(" %d", an);
	enum re_literal_category cat; char *lit = nullptr; size_t n = 0; MemIn l{ p.data(), p.size() }; int li = re_is_literal(d, op_getc, &l, (enum re_flags) fl, &e, &cat, &lit, &n); s += fmt(" %d", li); if (li == 1) { s += fmt(" %d ", (int) cat); if (lit) { s.append(lit, n); free(lit); } }
	return s;
}
static int hk_accept(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *o) { point(); fprintf(f, "return %s%zu;", (const char *) o, m->end_id_count ? (size_t) m->end_ids[0] : (size_t) 0); return 0; }
static int hk_reject(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *, void *, void *o) { point(); fprintf(f, "return -1; /* %s */", (const char *) o); return 0; }
static int hk_comment(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *o) { point(); fprintf(f, "/* %s %zu */", (const char *) o, m->end_id_count); return 0; }
static int hk_conflict(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, const char *ex, void *o) { point(); return 0; }
static int wk_lit(const struct fsm *, fsm_state_t a, fsm_state_t b, char c, void *o) { point(); *(std::string *) o += fmt("%d-%d-%d,", (int) a, (int) b, c); return 1; }
static int wk_eps(const struct fsm *, fsm_state_t a, fsm_state_t b, void *o) { point(); *(std::string *) o += fmt("%d=%d,", (int) a, (int) b); return 1; }
static int wk_st(const struct fsm *, fsm_state_t a, void *o) { point(); *(std::string *) o += fmt("%d;", (int) a); return 1; }
static void eager_cb(fsm_output_id_t id, void *o) { point(); *(std::string *) o += fmt("!%d", (int) id); }
typedef int (*matcher)(int (*)(void *), void *, const unsigned **, size_t *);
static std::string prep_; static void *prep_h; // code compiled beforehand
static void define_insts() {
	define(); define_inputs();
	for (auto &o : ops) {
		int na = o.arity; bool needs_start = o.name == "fsm_intersect" || o.name == "fsm_subtract" || o.name == "fsm_union_array", needs_end = o.name == "fsm_concat"; std::vector<std::vector<int>> tuples;
		if (na == 0) tuples.push_back({}); else for (size_t i = 0; i < inputs.size(); i++) { std::vector<int> t; for (int j = 0; j < na; j++) t.push_back((i + j * (j + 4)) % inputs.size()); tuples.push_back(t); }
		for (auto &t : tuples) { std::vector<Nfa> in; std::string name = o.name; for (int i : t) { Nfa a = inputs[i]; if (needs_start && a.start < 0) a = inputs[0]; if (needs_end && ref_empty(a)) a = inputs[1]; if (o.dfa) { a = ref_trim(ref_dfa(a, 400)); if (inputs[i].start < 0) { a = Nfa(); a.add(true); a.start = 0; } } in.push_back(a); name += " (" + inames[i] + ")"; }
			const Op *op = &o; insts.push_back({ name, [op, in] { Run r; for (auto &a : in) r.m.push_back(build(a, &FA.a)); bool ok = op->run(r); std::string s = fmt("%d ", ok) + r.obs; if (r.out) s += extract(r.out).str(); if (!ok || op->kind == CONSUME || op->kind == MAKEQ) { if (r.out) fsm_free(r.out); return s; } for (auto m : r.m) if (m != r.out) s += extract(m).str(); if (r.out) fsm_free(r.out); for (auto m : r.m) if (m != r.out) fsm_free(m); return s; }, "" }); } }
	struct P { enum re_dialect d; const char *p; };
	static const P ps[] = { { RE_PCRE, "a(b|c)*d" }, { RE_PCRE, "^abc$" }, { RE_PCRE, "[[:alpha:]\\d_-]+\\." }, { RE_PCRE, "(?i)x(?-i)y|(?s:.)" }, { RE_PCRE, "a{2,3}(b{0,2}|c{3}){2}" }, { RE_PCRE, "\\Qa.b\\E\\x41\\o{101}\\n" }, { RE_PCRE, "(?#c)[^\\x00-\\x7f]" }, { RE_PCRE, "^(a|^b|c$|$)" }, { RE_PCRE, "a**" }, { RE_PCRE, "a{3,2}" }, { RE_PCRE, "(ab" }, { RE_PCRE, "[z-a]" }, { RE_PCRE, "\\x{110}" }, { RE_PCRE, "a*?" }, { RE_PCRE, "[[:nope:]]" }, { RE_PCRE, "(?x) a b # c\n d" }, { RE_PCRE, "\\w\\W\\s\\S\\h\\v\\R\\N" }, { RE_PCRE, "(?<n>a)(?:b)" }, { RE_PCRE, "$a^|b" }, { RE_PCRE, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa|b" }, { RE_PCRE, "" },
		{ RE_NATIVE, "a[b-d]*(e|f)?$" }, { RE_NATIVE, "^\\x41\\n" }, { RE_NATIVE, "a(" }, { RE_NATIVE, "a{2}b" }, { RE_GLOB, "a*b?c" }, { RE_GLOB, "\\*" }, { RE_LIKE, "a%b_c" }, { RE_LIKE, "%" }, { RE_SQL, "a(b|c)*%_[x-z]" }, { RE_SQL, "[^a]{2}" }, { RE_SQL, "(a" }, { RE_LITERAL, "a.*b" }, { RE_LITERAL, "" } };
	for (auto &p : ps) for (int fl : { 0, (int) RE_ICASE, (int) RE_ANCHORED, (int) (RE_SINGLE | RE_REVERSE), (int) (RE_END_NL | RE_EXTENDED) }) insts.push_back({ fmt("re_comp dialect %d /%s/ flags %d", p.d, p.p, fl), [p, fl] { return comp(p.d, p.p, fl); }, "" });
	for (auto &p : ps) for (auto l : { AST_PRINT_DOT, AST_PRINT_ABNF, AST_PRINT_TREE, AST_PRINT_PCRE }) insts.push_back({ fmt("ast_print %d dialect %d /%s/", l, p.d, p.p), [p, l] { MemIn m{ p.p, strlen(p.p) }; struct re_err e; memset(&e, 0, sizeof e); int un = 0; struct ast *a = re_parse(p.d, op_getc, &m, (enum re_flags) 0, &e, &un); if (!a) return fmt("refused %d", e.e); static const struct fsm_options zero = {}; struct fsm_options o = zero; o.prefix = "q"; std::string s; FILE *f = out_to(&s); int r = ast_print(f, a, &o, (enum re_flags) 0, l); fclose(f); ast_free(a); if (l == AST_PRINT_TREE || l == AST_PRINT_DOT) { /* has addresses */ std::string t; for (size_t i = 0; i < s.size();) if (s.compare(i, 2, "0x") == 0 && isxdigit((unsigned char) s[i + 2]) && isxdigit((unsigned char) s[i + 6])) { i += 2; while (isxdigit((unsigned char) s[i])) i++; t += "@"; } else t += s[i++]; s = t; } return fmt("%d %d ", r, un) + s; }, "" });
	static const int langs[] = { FSM_PRINT_API, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_JSON, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_VMDOT, FSM_PRINT_GO, FSM_PRINT_RUST, FSM_PRINT_LLVM, FSM_PRINT_SH, FSM_PRINT_AWK, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_AMD64_GO, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_VMOPS_MAIN, FSM_PRINT_NONE };
	std::vector<Nfa> dm; for (size_t i = 0; i < inputs.size(); i++) { Nfa a = ref_trim(ref_dfa(inputs[i], 60)); if (a.n() == 0 || a.n() > 12) continue; assign_ids(a, 1 + i % 5); for (auto &s : a.s) if (s.end && s.ids.empty()) s.ids.insert(3); dm.push_back(a); if (dm.size() > 4) break; }
	for (size_t k = 0; k < dm.size(); k++) for (int l : langs) for (int am : { AMBIG_NONE, AMBIG_ERROR, AMBIG_EARLIEST, AMBIG_MULTIPLE }) for (int io = 0; io < 3; io++) { bool sup = l == FSM_PRINT_AMD64_ATT || l == FSM_PRINT_AMD64_NASM || l == FSM_PRINT_AMD64_GO ? io == 2 : l == FSM_PRINT_SH || l == FSM_PRINT_AWK ? io == 1 : l == FSM_PRINT_GO ? io > 0 : l == FSM_PRINT_C || l == FSM_PRINT_VMC || l == FSM_PRINT_LLVM || l == FSM_PRINT_RUST ? true : io == 1; if (!sup) continue; Nfa a = dm[k];
		insts.push_back({ fmt("print language %d, mode %d, io %d, machine %zu", l, am, io, k), [a, l, am, io, k] { struct fsm *f = build(a, &FA.a); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = (enum fsm_ambig) am; o.io = (enum fsm_io) io; o.comments = (k + l) % 2; o.always_hex = k % 3 == 1; o.consolidate_edges = l % 3 == 0; o.prefix = k % 2 ? "pre" : "x_"; o.package_prefix = "p"; struct fsm_hooks h; memset(&h, 0, sizeof h); h.comment = hk_comment; h.conflict = hk_conflict; if (k % 2 && (l == FSM_PRINT_C || l == FSM_PRINT_VMC)) { h.accept = hk_accept; h.reject = hk_reject; } h.hook_opaque = (void *) (k % 2 ? "odd" : "even"); std::string s; FILE *w = out_to(&s); int r = fsm_print(w, f, &o, &h, (enum fsm_print_lang) l); fclose(w); fsm_free(f); return fmt("%d ", r) + s; }, "" }); }
	static const char *texts[] = { "", "a", "ab", "abcabc", "aab", "zzzz", "ba\xff" };
	for (size_t k = 0; k < dm.size(); k++) for (auto t : texts) { Nfa a = dm[k]; for (size_t i = 0; i < a.n(); i++) a.s[i].eager = { (unsigned) (k * 10 + i), 77 };
		insts.push_back({ fmt("fsm_exec machine %zu %s", k, show(t).c_str()), [a, t] { struct fsm *f = build(a, &FA.a); std::string s; fsm_eager_output_set_cb(f, eager_cb, &s); MemIn m{ t, strlen(t) }; fsm_state_t e = 0; int r = fsm_exec(f, op_getc, &m, &e, nullptr); s += fmt(" %d %d", r, r == 1 ? (int) e : -1); fsm_free(f); return s; }, "" });
		insts.push_back({ fmt("vm machine %zu %s", k, show(t).c_str()), [a, t] { struct fsm *f = build(a, &FA.a); std::string s; for (int v = 0; v < 2; v++) for (unsigned fl : { 0u, (unsigned) FSM_VM_COMPILE_DEFAULT_FLAGS }) { struct fsm_vm_compile_opts o = { fl, v ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1, nullptr }; struct fsm_options fo; memset(&fo, 0, sizeof fo); struct fsm_dfavm *vm = fsm_vm_compile_with_options(f, &fo, o); if (!vm) { s += "failed"; continue; } MemIn m{ t, strlen(t) }; FILE *in = in_from(&m); s += fmt("%d", fsm_vm_match_file(vm, in)); fclose(in); s += fmt("%d ", fsm_vm_match_buffer(vm, t, strlen(t))); fsm_vm_free(vm); } fsm_free(f); return s; }, "" }); }
	for (size_t k = 0; k < inputs.size(); k++) { Nfa a = inputs[k]; insts.push_back({ "walk " + inames[k], [a] { struct fsm *f = build(a, &FA.a); std::string s; fsm_walk_edges(f, &s, wk_lit, wk_eps); fsm_walk_states(f, &s, wk_st); s += fmt("%d %d", fsm_has(f, pred_end), fsm_all(f, pred_end)); fsm_free(f); return s; }, "" }); }
	static const char *fsmt[] = { "0 -> 1 \"a\";\n1 -> 2 'b';\n1 -> 1 ?;\n2 -> 0;\nstart: 0;\nend: 1 = [3, 4], 2 = [5];\n", "", "q -> r \"\\x41\";\nr -> q \"\\n\";\n# c\nstart: q;\nend: q;\n", "x -> y \"\\\"\"; y -> z \"\\\\\"; z -> x;\nstart: x; end: y, z;" };
	for (auto t : fsmt) insts.push_back({ std::string("fsm_parse ") + show(t), [t] { MemIn m{ t, strlen(t) }; FILE *in = in_from(&m); struct fsm *f = fsm_parse(in, &FA.a); fclose(in); if (!f) return std::string("refused"); std::string s = extract(f).str(); fsm_free(f); return s; }, "" });
	for (int k = 0; k < 6; k++) for (int fl = 0; fl < 4; fl++) insts.push_back({ fmt("re_strings %d flags %d", k, fl), [k, fl] { static const char *w[] = { "abc", "ab", "", "cab", "bc", "abcd", "xyzzy" }; struct re_strings *g = re_strings_new(); for (int i = 0; i <= k; i++) { fsm_end_id_t id = i * 3; point(); re_strings_add_str(g, w[(i + k) % 7], fl == 3 || k % 2 ? nullptr : &id); } struct fsm *f = re_strings_build(g, &FA.a, (enum re_strings_flags) fl); point(); re_strings_free(g); if (!f) return std::string("failed"); std::string s = extract(f).str(); fsm_free(f); return s; }, "" });
	static const char *gf[] = { "a\\0b", "\\1\\2", "\\3", "\\", "x\\\\y", "\\10" }; for (auto t : gf) insts.push_back({ std::string("groups ") + t, [t] { static const char *g[] = { "one", "two" }; char b[64]; memset(b, 0, sizeof b); struct re_pos s, e; memset(&s, 0, sizeof s); memset(&e, 0, sizeof e); bool r = re_interpolate_groups(t, '\\', "zero", 2, g, nullptr, b, sizeof b, &s, &e); return fmt("%d %d %d ", r, (int) s.byte, (int) e.byte) + (r ? b : ""); }, "" });
	for (auto t : { "", "i", "sx", "imsx", "q", "ii" }) insts.push_back({ std::string("re_flags ") + t, [t] { enum re_flags f = (enum re_flags) 0; int r = re_flags(t, &f); return fmt("%d %d", r, r ? (int) f : 0); }, "" });
	// generated code, compiled beforehand
	for (size_t k = 0; k < dm.size(); k++) for (int l : { FSM_PRINT_C, FSM_PRINT_VMC }) for (auto t : texts) insts.push_back({ fmt("generated code %d for machine %zu %s", l, k, show(t).c_str()), [k, l, t] { matcher m = prep_h ? (matcher) dlsym(prep_h, fmt("g%zu_%dmain", k, l).c_str()) : nullptr; if (!m) return std::string("not loaded"); MemIn in{ t, strlen(t) }; const unsigned *ids = nullptr; size_t n = 0; int r = m(op_getc, &in, &ids, &n); std::string s = fmt("%d", r); if (r == 1) for (size_t i = 0; i < n; i++) s += fmt(" %u", ids[i]); return s; }, "x" });
	prep_ = "#include <stddef.h>\n#include <stdio.h>\n#include <string.h>\n"; pid_t pid; int fd[2]; if (pipe(fd)) abort(); // printed elsewhere: nothing has run in this process yet
	if ((pid = fork()) == 0) { std::string s; for (size_t k = 0; k < dm.size(); k++) for (int l : { FSM_PRINT_C, FSM_PRINT_VMC }) { struct fsm *f = build(dm[k], &FA.a); std::string pre = fmt("g%zu_%d", k, l); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; o.io = FSM_IO_GETC; o.prefix = pre.c_str(); char *p; size_t n; FILE *w = open_memstream(&p, &n); fsm_print(w, f, &o, nullptr, (enum fsm_print_lang) l); fclose(w); s.append(p, n); } size_t w = 0; while (w < s.size()) { ssize_t x = write(fd[1], s.data() + w, s.size() - w); if (x <= 0) break; w += x; } _exit(0); }
	close(fd[1]); char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) prep_.append(b, n); close(fd[0]); waitpid(pid, nullptr, 0);
}
static bool load() { // built with its accesses instrumented too
	char tn[] = "gt-XXXXXX"; if (!mkdtemp(tn)) return false; std::string d = tn; FILE *f = fopen((d + "/g.c").c_str(), "w"); fputs(prep_.c_str(), f); fclose(f);
	// put its data where it can be found
	std::string c = "cd " + d + " && gcc -w -O1 -fPIC -fsanitize=thread -c g.c -o g.o && objcopy --rename-section .data=libdata --rename-section .bss=libbss g.o && echo 'extern char __start_libdata[] __attribute__((weak,visibility(\"hidden\"))), __stop_libdata[] __attribute__((weak,visibility(\"hidden\"))), __start_libbss[] __attribute__((weak,visibility(\"hidden\"))), __stop_libbss[] __attribute__((weak,visibility(\"hidden\"))); void g_range(char **v) { v[0] = __start_libdata; v[1] = __stop_libdata; v[2] = __start_libbss; v[3] = __stop_libbss; }' > r.c && gcc -w -fPIC -c r.c && gcc -shared -Wl,-Bsymbolic g.o r.o -o g.so";
	int r = system(c.c_str()); if (r == 0) prep_h = dlopen(("./" + d + "/g.so").c_str(), RTLD_NOW); if (!prep_h) fprintf(stderr, "generated code: %s\n", dlerror());
	for (auto x : { "/g.c", "/g.o", "/r.c", "/r.o", "/g.so" }) unlink((d + x).c_str()); rmdir(d.c_str()); if (!prep_h) return false;
	void (*g)(char **) = (void (*)(char **)) dlsym(prep_h, "g_range"); char *v[4]; g(v); uintptr_t lo = 0, hi = 0; for (int i = 0; i < 4; i += 2) if (v[i] && v[i + 1] > v[i]) { if (!lo || (uintptr_t) v[i] < lo) lo = (uintptr_t) v[i]; if ((uintptr_t) v[i + 1] > hi) hi = (uintptr_t) v[i + 1]; } xlo = lo; xhi = hi; return true;
}
// ---- running ----
static const Inst *running[2];
static void entry(int i) { cx[i].out = running[i]->f(); cx[i].done = true; if (i == cur) { int o = 1 - i; if (running[o] && !cx[o].done) { cur = o; errno = cx[o].err; setcontext(&cx[o].uc); } } cur = -1; setcontext(&mainuc); }
static void go(const Inst *a, const Inst *b, const std::vector<long> &s) {
	running[0] = a; running[1] = b; sched = s; sk = 0;
	for (int i = 0; i < 2; i++) { cx[i].used = 0; cx[i].at = 0; cx[i].done = false; cx[i].err = 0; cx[i].out.clear(); if (!running[i]) { cx[i].done = true; continue; } getcontext(&cx[i].uc); cx[i].uc.uc_stack.ss_sp = cx[i].stack; cx[i].uc.uc_stack.ss_size = STK; cx[i].uc.uc_link = nullptr; makecontext(&cx[i].uc, (void (*)()) entry, 1, i); }
	errno = 0; cur = 0; swapcontext(&mainuc, &cx[0].uc); cur = -1;
	for (int i = 0; i < 2; i++) cx[i].total = cx[i].at;
}
struct Solo { bool got = false, died = false; std::string out; std::vector<std::pair<uintptr_t, int>> acc; long points = 0, naccess = 0; };
static std::vector<Solo> solos;
static void put(int fd, const void *p, size_t n) { const char *c = (const char *) p; while (n) { ssize_t w = write(fd, c, n); if (w <= 0) _exit(3); c += w; n -= w; } }
static const size_t SHM = 1 << 16;
// alone, in a process in which nothing has run before
static Solo &solo(int i) {
	Solo &s = solos[i]; if (s.got) return s; s.got = true; int fd[2]; if (pipe(fd)) abort(); fflush(stdout); fflush(stderr);
	pid_t p = fork(); if (p == 0) { signal(SIGABRT, SIG_DFL); close(fd[0]); std::unordered_map<uintptr_t, unsigned char> l; log_ = &l; std::string before = snap(); go(&insts[i], nullptr, {}); settle(); std::string after = snap(); log_ = nullptr; for (size_t k = 0; k < before.size(); k++) if (before[k] != after[k]) l[snap_addr(k)] |= 3; size_t h[4] = { cx[0].out.size(), l.size(), (size_t) cx[0].total, (size_t) naccess }; put(fd[1], h, sizeof h); put(fd[1], cx[0].out.data(), h[0]); for (auto &x : l) { uintptr_t v[2] = { x.first, x.second }; put(fd[1], v, sizeof v); } _exit(0); }
	close(fd[1]); std::string b; char t[65536]; ssize_t n; while ((n = read(fd[0], t, sizeof t)) > 0) b.append(t, n); close(fd[0]); int st; waitpid(p, &st, 0);
	if (st) { s.died = true; return s; } size_t h[4]; memcpy(h, b.data(), sizeof h); s.out = b.substr(sizeof h, h[0]); s.points = h[2]; s.naccess = h[3]; for (size_t k = 0; k < h[1]; k++) { uintptr_t v[2]; memcpy(v, b.data() + sizeof h + h[0] + k * sizeof v, sizeof v); s.acc.push_back({ v[0], (int) v[1] }); } std::sort(s.acc.begin(), s.acc.end()); return s;
}
static bool conflict(const Solo &a, const Solo &b, std::vector<uintptr_t> *at) { bool r = false; size_t i = 0, j = 0; while (i < a.acc.size() && j < b.acc.size()) { if (a.acc[i].first < b.acc[j].first) i++; else if (a.acc[i].first > b.acc[j].first) j++; else { if ((a.acc[i].second | b.acc[j].second) & 2) { r = true; if (at) at->push_back(a.acc[i].first); else return true; } i++; j++; } } return r; }
static std::string sstr(const std::vector<long> &s) { std::string o; for (long x : s) o += fmt(" %ld", x); return o; }
// all schedules of a pair, in a child
static void pair(int i, int j, bool acc, int bound, long cap) {
	Solo &A = solo(i), &B = solo(j); if (A.died || B.died) return; std::vector<uintptr_t> at; if (acc) conflict(A, B, &at);
	memset(shm, 0, SHM); fflush(stdout); fflush(stderr); pid_t p = fork();
	if (p == 0) {
		signal(SIGABRT, SIG_DFL); alarm(120); on_access = acc; shared.insert(at.begin(), at.end()); long n = 0, switches = 0;
		auto run = [&](const std::vector<long> &s) { shm[0] = 1; shm[1] = s.size(); for (size_t k = 0; k < s.size(); k++) shm[2 + k] = s[k]; go(&insts[i], &insts[j], s); n++; shm[10] = n; shm[11] += cx[0].at + cx[1].at; shm[12] += sk; for (int k = 0; k < 2; k++) if (cx[k].out != (k ? B : A).out) { std::string m = fmt("%s of the two, switched at points%s, gives ", k ? "the second" : "the first", sstr(s).c_str()) + show(cx[k].out.substr(0, 300)) + " rather than " + show((k ? B : A).out.substr(0, 300)); if (m.size() > 4000) m.resize(4000); shm[0] = 2; strcpy((char *) (shm + 100), m.c_str()); _exit(1); } return n < cap; };
		// one after the other, and again
		run({}); long n0 = cx[0].total, n1 = cx[1].total; run({});
		long st1 = bound == 1 && n0 > cap - 2 ? (n0 + cap - 3) / std::max(cap - 2, 1L) : 1; if (st1 > 1) shm[13] = 1; if (bound >= 1) for (long a = 0; a < n0; a += st1) if (!run({ a })) break;
		if (bound >= 2 && n < cap) { bool more = true; for (long a = 0; a < n0 && more; a++) for (long b = 0; b < n1 && more; b++) more = run({ a, b }); }
		if (bound >= 3 && n < cap) { bool more = true; for (long a = 0; a < n0 && more; a++) for (long b = 0; b < n1 && more; b++) for (long c = a + 1; c < n0 && more; c++) more = run({ a, b, c }); }
		if (n >= cap) shm[13] = 1; shm[0] = 3; _exit(0);
	}
	int st; waitpid(p, &st, 0); H.traces += shm[10]; H.states += shm[11]; H.transitions += shm[12]; if (shm[13]) H.counters["cut short"]++; std::string how = acc ? "accesses" : "explicit";
	if (shm[0] == 2) H.fail("result " + how, std::string((char *) (shm + 100)));
	else if (shm[0] != 3) { std::vector<long> s; for (long k = 0; k < shm[1] && k < 6; k++) s.push_back(shm[2 + k]); H.fail("crash " + how, fmt("the process ended (status %d) when switched at points%s", st, sstr(s).c_str())); }
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T2 = T = H.thorough; (void) T2;
	shm = (long *) mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < 2; i++) { cx[i].stack = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); cx[i].arena = (char *) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	dlo = (uintptr_t) __start_libdata; dhi = (uintptr_t) __stop_libdata; blo = (uintptr_t) __start_libbss; bhi = (uintptr_t) __stop_libbss;
	define_insts(); if (!load()) return 2; int N = insts.size(); solos.resize(N); fsm_state_t dummy; (void) dummy;
	std::vector<std::pair<uintptr_t, size_t>> wr; bool timeup = false;
	// 1 and 2
	for (int i = 0; i < N && !timeup; i++) { if (H.stop()) break; if (!H.take()) continue; if (!H.begin([=] { return "accesses: " + insts[i].name; })) continue;
		Solo &s = solo(i); if (s.died) { H.fail("alone", "does not survive being run alone"); continue; } H.transitions += s.naccess; H.nontrivial++; long conf = 0; std::vector<int> c; bool w = false; for (auto &x : s.acc) if (x.second & 2) w = true; if (w && H.arg.count("show")) { for (auto &x : s.acc) if (x.second & 2) printf("%lx ", (long) x.first); printf("%s\n", insts[i].name.c_str()); } H.counters[w ? "write static data" : "write no static data"]++;
		for (int j = 0; j < N; j++) { Solo &b = solo(j); if (b.died) continue; if (s.acc.empty() || b.acc.empty() || !conflict(s, b, nullptr)) { H.counters["independent pairs"]++; H.traces++; } else { H.counters["dependent pairs"]++; c.push_back(j); } }
		// those with a conflict: this one against itself, and against some spread over the others
		if (c.empty()) continue; int m = T ? 24 : 4; int k = H.nfails; for (int q = 0; q < m && q < (int) c.size() && k == H.nfails; q++) { int j = q == 0 && std::count(c.begin(), c.end(), i) ? i : c[(size_t) q * c.size() / m]; pair(i, j, true, 2, std::max(20L, std::min(T ? 4000L : 200L, (T ? 1000000000L : 10000000L) / (s.naccess + solo(j).naccess + 2000)))); H.counters["dependent pairs run"]++; } }
	// 3: an operation against itself, its neighbour, and others
	for (int i = 0; i < N; i++) for (int q = 0; q < (T ? 12 : 2); q++) { if (H.stop()) break; if (!H.take()) continue; int j = q == 0 ? i : q == 1 ? (i + 1) % N : (int) ((i * 31L + q * 211) % N); if (!H.begin([=] { return "schedules: " + insts[i].name + " and " + insts[j].name; })) continue;
		Solo &A = solo(i), &B = solo(j); if (A.died || B.died) continue; H.nontrivial++; long small = T ? 3000 : 250; long cap = T ? 8000 : 60, most = (T ? 400000000L : 4000000L) / (A.naccess + B.naccess + 2000); cap = std::max(10L, std::min(cap, most)); int bound = A.points * B.points * std::max(A.points, 1L) < small * 2 ? 3 : A.points * B.points < small ? 2 : 1; pair(i, j, false, bound, cap); H.counters[fmt("pairs switched up to %d times", bound)]++; }
	return H.finish();
}
