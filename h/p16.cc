// P16: C code generated for a DFA, compiled and loaded, answers as the DFA does.
// LINK: -ldl
#include "gen.h"
#include "ids.h"
#include "conf.h"
#include <dlfcn.h>
#include <sys/wait.h>
#include <spawn.h>
#include <errno.h>
extern "C" {
#include <fsm/print.h>
#include <fsm/options.h>
extern char **environ;
}
enum { GETC, STR, PAIR };
static const char *ion[] = { "getc", "str", "pair" };
struct Fn { std::string sym; int lang, io, ambig; bool hooks, frag; std::string opts; void *p = nullptr; };
struct Case { int64_t idx; std::function<std::string()> cur; Nfa a; std::vector<Fn> fns; std::string src[2]; int len, kind; std::vector<std::string> extra; };
static std::vector<Case> pend; static size_t pbytes; static int seq; static std::string dir; static bool T;
static char *guard; static const size_t GN = 1 << 17;
static const char *HEAD = "#include <string.h>\n#include <stddef.h>\n#include <stdio.h>\n#define FSM_SET_EAGER_OUTPUT(x) (eo[(x)] = 1)\n";
// hooks
static int hk_args(FILE *f, const struct fsm_options *, void *, void *) { fprintf(f, "const char **out, int *adv, unsigned char *eo"); return 0; }
static int hk_accept(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *) { fprintf(f, "{ *out = \""); for (size_t i = 0; i < m->end_id_count; i++) fprintf(f, "%u,", m->end_ids[i]); fprintf(f, "\"; "); for (size_t i = 0; i < m->eager_output_count; i++) fprintf(f, "eo[%u] = 1; ", (unsigned) m->eager_output_ids[i]); fprintf(f, "return 2; }"); return 0; }
static int hk_reject(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *, void *, void *) { fprintf(f, "{ *out = \"r\"; return 3; }"); return 0; }
static int hk_advance(FILE *f, const struct fsm_options *, const char *cp, void *) { fprintf(f, "\t\tunsigned char cc = (unsigned char) %s;\n\t\t++*adv;\n", strcmp(cp, "cc") ? "c" : "*p"); return 0; }
static int hk_advance2(FILE *f, const struct fsm_options *, const char *, void *) { fprintf(f, "\t\t++*adv;\n"); return 0; }
static int hk_comment(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *, void *) { fprintf(f, "/* hooked */"); return 0; }
static bool cc(const std::string &base, bool strict[2], const std::string *src, std::string *err) {
	std::vector<std::string> objs; for (int k = 0; k < 2; k++) { if (!strict[k]) continue; std::string c = base + (k ? "g.c" : "s.c"); FILE *f = fopen(c.c_str(), "w"); if (!f) { perror(c.c_str()); exit(2); } fputs(HEAD, f); fwrite(src[k].data(), 1, src[k].size(), f); if (fclose(f)) { perror("write"); exit(2); } objs.push_back(c); }
	std::string cmd = "("; for (auto &c : objs) cmd += "gcc -c -O0 -fPIC -w " + std::string(c[c.size() - 3] == 's' ? "-std=c90 -pedantic-errors -Wno-overlength-strings -Wno-long-long " : "") + c + " -o " + c + ".o && "; cmd += "gcc -shared -o " + base + ".so"; for (auto &c : objs) cmd += " " + c + ".o"; cmd += ") >" + base + ".err 2>&1";
	int r = system(cmd.c_str()); for (auto &c : objs) { unlink(c.c_str()); unlink((c + ".o").c_str()); }
	if (r != 0 && err) { FILE *f = fopen((base + ".err").c_str(), "r"); char b[1500]; size_t n = f ? fread(b, 1, sizeof b, f) : 0; if (f) fclose(f); *err = std::string(b, n); } unlink((base + ".err").c_str()); H.tick(); return r == 0;
}
static std::string idlist(const Ids &s) { std::string o; for (auto x : s) o += fmt("%llu,", (unsigned long long) x); return o; }
static size_t noob; static int (*volatile fp)();
// calls one function on one string: nothing, or what was wrong
static bool ask1(const Case &c, const Fn &f, const Table &t, const std::string &s0) {
	std::string s = s0; if (f.io == STR) s = s.substr(0, s.find('\0')); H.traces++; H.tick();
	int q = dfa_run(c.a, t, s); bool want = q >= 0 && c.a.s[q].end; size_t n = s0.size(); char *e = guard + GN; char *b = e - n - (f.io == STR ? 1 : 0); memcpy(b, s0.data(), n); if (f.io == STR) e[-1] = 0;
	MemIn in = { s0.data(), n }; unsigned id = 4242; const unsigned *ids = nullptr; size_t cnt = 4242; const char *out = "none"; int adv = 0; static unsigned char eo[256]; if (f.hooks) memset(eo, 0, sizeof eo); int r;
	typedef int (*G)(void *);
	if (f.hooks) {
		if (f.ambig == AMBIG_NONE) r = f.io == GETC ? ((int (*)(G, void *, const char **, int *, unsigned char *)) f.p)(mem_getc, &in, &out, &adv, eo) : f.io == STR ? ((int (*)(const char *, const char **, int *, unsigned char *)) f.p)(b, &out, &adv, eo) : ((int (*)(const char *, const char *, const char **, int *, unsigned char *)) f.p)(b, e, &out, &adv, eo);
		else r = f.io == GETC ? ((int (*)(G, void *, const unsigned **, size_t *, const char **, int *, unsigned char *)) f.p)(mem_getc, &in, &ids, &cnt, &out, &adv, eo) : f.io == STR ? ((int (*)(const char *, const unsigned **, size_t *, const char **, int *, unsigned char *)) f.p)(b, &ids, &cnt, &out, &adv, eo) : ((int (*)(const char *, const char *, const unsigned **, size_t *, const char **, int *, unsigned char *)) f.p)(b, e, &ids, &cnt, &out, &adv, eo);
	} else if (f.ambig == AMBIG_NONE) r = f.io == GETC ? ((int (*)(G, void *)) f.p)(mem_getc, &in) : f.io == STR ? ((int (*)(const char *)) f.p)(b) : ((int (*)(const char *, const char *)) f.p)(b, e);
	else if (f.ambig != AMBIG_MULTIPLE) r = f.io == GETC ? ((int (*)(G, void *, unsigned *)) f.p)(mem_getc, &in, &id) : f.io == STR ? ((int (*)(const char *, unsigned *)) f.p)(b, &id) : ((int (*)(const char *, const char *, unsigned *)) f.p)(b, e, &id);
	else r = f.io == GETC ? ((int (*)(G, void *, const unsigned **, size_t *)) f.p)(mem_getc, &in, &ids, &cnt) : f.io == STR ? ((int (*)(const char *, const unsigned **, size_t *)) f.p)(b, &ids, &cnt) : ((int (*)(const char *, const char *, const unsigned **, size_t *)) f.p)(b, e, &ids, &cnt);
	std::string bad; int yes = f.hooks ? 2 : 1, no = f.hooks ? 3 : 0;
	
	if (r != (want ? yes : no)) bad = fmt("returned %d, want %d", r, want ? yes : no);
	else if (f.io == GETC && in.reads_after_eof > 1) bad = fmt("read %zu times at the end of the input", in.reads_after_eof);
	else if (want && !f.hooks && f.ambig == AMBIG_MULTIPLE) { Ids g; for (size_t i = 0; i < cnt && i < 1000; i++) g.insert(ids[i]); if (cnt != c.a.s[q].ids.size() || g != c.a.s[q].ids) bad = "ids " + idlist(g) + fmt(" (%zu), want ", cnt) + idlist(c.a.s[q].ids); else for (size_t i = 1; i < cnt; i++) if (ids[i] <= ids[i - 1]) bad = "ids out of order"; }
	else if (want && !f.hooks && f.ambig != AMBIG_NONE) { if (id != *c.a.s[q].ids.begin()) bad = fmt("id %u, want ", id) + idlist(c.a.s[q].ids); }
	else if (f.hooks) {
		if (out != (want ? f.ambig == AMBIG_MULTIPLE ? idlist(c.a.s[q].ids) : std::string(out) : "r")) bad = std::string("the hooks left ") + out;
		if (f.lang == FSM_PRINT_C && c.a.start >= 0 && f.opts.find("advance") != std::string::npos) { int wantadv = 0, x = c.a.start; for (unsigned char ch : s) { wantadv++; if (x >= 0) x = t[x][ch]; if (x < 0) break; } if (adv != wantadv) bad = fmt("advance hook ran %d times, want %d", adv, wantadv); }
		if (want && f.lang == FSM_PRINT_C && f.frag) { Ids g, w; for (int i = 0; i < 256; i++) if (eo[i]) g.insert(i); int x = c.a.start; w = c.a.s[x].eager; for (unsigned char ch : s) { x = t[x][ch]; w.insert(c.a.s[x].eager.begin(), c.a.s[x].eager.end()); } if (g != w) bad = "eager outputs " + show(g) + ", want " + show(w); }
	}
	if (bad.empty()) return true;
	H.fail(std::string(f.lang == FSM_PRINT_C ? "c" : "vmc") + (f.hooks ? "-hooks" : ""), ion[f.io] + f.opts + ": " + bad + ", on " + show(s0.substr(0, 200)) + fmt(" (%zu bytes)", s0.size())); return false;
}
static void exec(Case &c) {
	Table t = dfa_table(c.a); unsigned char rc[256]; auto reps = table_classes(t, rc); H.states += c.a.n(); uint64_t tr0 = H.transitions;
	std::vector<std::string> ss(c.extra); if (c.len > 0) all_strings(reps, c.len, [&](const std::string &s) { ss.push_back(s); return true; });
	std::map<int, int> done; // the suite runs in full on one function of each kind, and with boundary bytes on the others
	Suite *su = c.a.start >= 0 ? new Suite(c.a, t, true) : nullptr; auto eb = (c.a.n() > 40 || c.cur().compare(0, 8, "sequence") == 0) && !T ? edge_bytes(t) : all_bytes(), eb2 = edge_bytes(t);
	for (auto &f : c.fns) { if (!f.p) continue; bool ok = true; for (auto &s : ss) if (!(ok = ask1(c, f, t, s))) break; if (ok && su) { size_t k = 0; su->each(c.a, t, T || !done[f.lang * 3 + f.io + f.hooks * 100]++ ? eb : eb2, [&](const std::string &s) { H.transitions++; if (k++ > 3000000) { H.counters["cut"]++; return false; } return ok = ask1(c, f, t, s); }, -1, c.a.n() > 60 && !T ? 11 : 1); } if (!su) for (const char *s : { "", "a", "ab" }) if (ok) ok = ask1(c, f, t, s); }
	delete su; if (getenv("P16T")) fprintf(stderr, "T %llu %s\n", (unsigned long long) (H.transitions - tr0), c.cur().substr(0, 60).c_str());
}
static bool load_run(const std::string &base, std::vector<Case *> cs) {
	void *h = dlopen(("./" + base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } int64_t oi = H.idx; auto oc = H.cur;
	for (auto c : cs) { for (auto &f : c->fns) { f.p = dlsym(h, f.sym.c_str()); if (!f.p) { H.idx = c->idx; H.cur = c->cur; H.fail("compile", "no symbol " + f.sym); } } H.idx = c->idx; H.cur = c->cur; H.sh->idx = c->idx; exec(*c); }
	H.idx = oi; H.cur = oc; H.sh->idx = oi; dlclose(h); unlink((base + ".so").c_str()); return true;
}
static void flush() {
	if (pend.empty()) return; std::string src[2]; bool have[2] = { false, false }; std::vector<Case *> all; for (auto &c : pend) { all.push_back(&c); for (int k = 0; k < 2; k++) if (!c.src[k].empty()) { have[k] = true; src[k] += c.src[k]; } }
	std::string base = dir + fmt("/b%d", seq++), err; H.counters["compilations"]++;
	if (cc(base, have, src, &err)) load_run(base, all);
	else { int64_t oi = H.idx; auto oc = H.cur; int bad = 0; for (auto &c : pend) { bool hv[2] = { !c.src[0].empty(), !c.src[1].empty() }; if (bad < 3) { std::string b = dir + fmt("/b%d", seq++); if (cc(b, hv, c.src, &err)) load_run(b, { &c }); else { bad++; H.idx = c.idx; H.cur = c.cur; H.fail("compile", err); } } } if (!bad) { fprintf(stderr, "compiler failed on the batch only: %s\n", err.c_str()); exit(2); } H.idx = oi; H.cur = oc; }
	pend.clear(); pbytes = 0;
}
static bool emit(Case &c, struct fsm *f, int lang, int io, int ambig, bool comments, bool ranges, bool hex, bool hooks, bool frag, int hv = 0) {
	static const struct fsm_options zero = {}; struct fsm_options o = zero; Fn fn; fn.sym = fmt("f%lld_%zu_", (long long) c.idx, c.fns.size()); std::string prefix = fn.sym; fn.sym += "main"; fn.lang = lang; fn.io = io; fn.ambig = ambig; fn.hooks = hooks; fn.frag = frag;
	fn.opts = fmt("%s%s%s%s%s%s", ambig == AMBIG_EARLIEST ? " earliest" : ambig == AMBIG_ERROR ? " error" : ambig == AMBIG_MULTIPLE ? " multiple" : "", comments ? " comments" : "", ranges ? " ranges" : "", hex ? " hex" : "", hooks ? " hooks" : "", frag ? " fragment" : "");
	o.prefix = prefix.c_str(); o.io = (enum fsm_io) io; o.ambig = (enum fsm_ambig) ambig; o.comments = comments; o.case_ranges = ranges; o.always_hex = hex; o.fragment = frag; o.anonymous_states = hv & 1; o.consolidate_edges = hv >> 1 & 1; o.group_edges = hv >> 2 & 1;
	struct fsm_hooks hk; memset(&hk, 0, sizeof hk); if (hooks) { hk.args = hk_args; if (!(hv & 1) || ambig == AMBIG_MULTIPLE) hk.accept = hk_accept; hk.reject = hk_reject; hk.comment = hk_comment; if (!hk.accept) hk.args = hk_args; if (lang == FSM_PRINT_C && io != GETC) { hk.cp = "cc"; hk.advance = hk_advance; fn.opts += " advance"; } else if (lang == FSM_PRINT_C) { hk.advance = hk_advance2; fn.opts += " advance"; } if (!hk.accept) hk.accept = hk_accept; }
	char *p = nullptr; size_t n = 0; FILE *m = open_memstream(&p, &n); errno = 0; int r = fsm_print(m, f, &o, hooks ? &hk : nullptr, (enum fsm_print_lang) lang); fclose(m); std::string s(p, n); free(p);
	if (r != 0) { H.fail("print", std::string(lang == FSM_PRINT_C ? "c " : "vmc ") + ion[io] + fn.opts + fmt(": fsm_print returned %d, errno %d", r, errno)); return false; }
	if (frag) { std::string h = "int " + fn.sym + "("; h += io == GETC ? "int (*fsm_getc)(void *), void *getc_opaque" : io == STR ? "const char *s" : "const char *b, const char *e"; if (ambig == AMBIG_MULTIPLE) h += ", const unsigned **ids, size_t *count"; else if (ambig != AMBIG_NONE) h += ", unsigned *id"; if (hooks) h += ", const char **out, int *adv, unsigned char *eo"; h += ")\n{\n"; if (!hooks) h += "\tstatic char eo[256];\n"; if (lang == FSM_PRINT_C) h += io == GETC ? "\tint c;\n" : "\tconst char *p;\n"; s = h + s + "}\n"; }
	c.src[ranges] += s; c.fns.push_back(fn); pbytes += s.size(); return true;
}
// kind: 0 a rotating choice of options for each way of reading, 1 all of them
static void run(Nfa a, const std::string &name, int len, int kind, std::vector<std::string> extra = {}) {
	Nfa shown = a; auto d = [=] { return name.empty() ? shown.str() : name; }; int64_t i = H.idx;
	{ bool any = false; for (auto &s : a.s) if (!s.ids.empty()) any = true; if (!any) { assign_ids(a, 1 + i % 5); } for (auto &s : a.s) { if (s.end && s.ids.empty()) s.ids.insert(7); if (!s.end) s.ids.clear(); } }
	if (!H.begin(d)) return; struct fsm *f = build(a); if (a.start < 0) for (auto &s : a.s) s.end = false;
	if (!is_dfa_shape(shown) && a.start >= 0) { static const struct fsm_options zero = {}; for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) { char *p; size_t n; FILE *m = open_memstream(&p, &n); errno = 0; int r = fsm_print(m, f, &zero, nullptr, (enum fsm_print_lang) lang); int e = errno; fclose(m); if (r != -1 || e != EINVAL || n) H.fail("nfa", fmt("printing code for a machine that isn't a DFA: %d, errno %d, %zu bytes", r, e, n)); free(p); } fsm_free(f); return; }
	H.nontrivial++; Case c; c.idx = i; c.cur = d; c.a = a; c.len = len; c.kind = kind; c.extra = extra; bool ok = true; std::string before = extract(f).str();
	if (kind == 1) { for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) for (int io = 0; io < 3; io++) for (int amb : { AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE }) for (int k = 0; k < 8; k++) if (ok) ok = emit(c, f, lang, io, amb, k & 1, k >> 1 & 1, k >> 2, false, false, i % 7); for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) for (int io = 0; io < 3; io++) for (int k = 0; k < 8; k++) { if (ok) ok = emit(c, f, lang, io, k >> 1 & 1 ? AMBIG_MULTIPLE : AMBIG_NONE, k & 1, lang == FSM_PRINT_C && io == STR, k == 5, true, k >> 2); if (ok) ok = emit(c, f, lang, io, k >> 1 & 1 ? AMBIG_MULTIPLE : AMBIG_NONE, k & 1, io == STR, k == 5, false, true); } }
	else if (kind == 3) { int64_t r = i; for (int amb : { AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE }) for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) { r++; if (ok) ok = emit(c, f, lang, r % 3, amb, r / 3 % 3 == 0, r / 5 % 3 == 0, r / 7 % 3 == 0, false, r / 11 % 5 == 0, r % 7); } }
	else { int64_t r = i * 7 + i / 3; for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) for (int io = 0; io < 3; io++, r++) if (ok) { ok = emit(c, f, lang, io, r % 3 == 0 ? AMBIG_NONE : r % 3 == 1 ? AMBIG_EARLIEST : AMBIG_MULTIPLE, r / 3 % 3 == 0, r / 7 % 3 == 0, r / 11 % 3 == 0, false, r / 5 % 5 == 0, r % 7); }
		if (ok && i % 3 == 0) for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) if (ok) { r++; ok = emit(c, f, lang, r % 3, r / 3 % 3 == 0 ? AMBIG_NONE : AMBIG_MULTIPLE, r / 5 % 3 == 0, r / 7 % 3 == 0, r / 11 % 3 == 0, true, r / 2 % 3 == 0); } }
	if (extract(f).str() != before) H.fail("changed", "printing changed the machine"); fsm_free(f);
	if (ok && a.start >= 0) { bool conf = false; for (auto &s : a.s) if (s.end && s.ids.size() > 1) conf = true; if (!conf) { struct fsm *g = build(a); for (int lang : { FSM_PRINT_C, FSM_PRINT_VMC }) if (ok) ok = emit(c, g, lang, (i + lang) % 3, AMBIG_ERROR, i % 3 == 0, i % 5 == 0, i % 7 == 0, false, false); fsm_free(g); } }
	if (!ok) return; pend.push_back(c); if (pbytes > (1 << 20) * 2 || H.only >= 0) flush();
}
static Nfa big(int n, int w, int kind) { Nfa a; for (int i = 0; i < n; i++) a.add(i % 7 * (i % 11) % 5 < 2); a.start = kind % 3 == 1 ? n / 2 : 0;
	for (int i = 0; i < n; i++) { std::map<int, Bytes> m; for (int c = 0; c < 256; c++) { int to; if (kind == 0) to = (i * 31 + (c * w / 256) * 57 + (c >> 1 & 1)) % n; else if (kind == 1) to = c % 2 ? -1 : (i + 1 + c * w / 256) % n; else to = c == 0 ? (i + 1) % n : (i + (c * w / 256) * (n / 7 + 1)) % n; if (to >= 0) m[to].set(c); } for (auto &x : m) a.set(i, x.first, x.second); }
	return a; }
static Nfa chain(const std::string &s, int how) { Nfa a; int n = s.size(); for (int i = 0; i <= n; i++) a.add(i == n || (how == 1 && i == n / 2)); a.start = 0; std::vector<std::map<int, Bytes>> e(n + 1); for (int i = 0; i < n; i++) e[i][i + 1].set((unsigned char) s[i]); if (how == 2) e[n][n / 2].set('q'); if (how == 3) e[n][n] |= BR(0, 255); for (int i = 0; i <= n; i++) for (auto &x : e[i]) a.set(i, x.first, x.second); return a; }
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough; char tn[] = "gc-XXXXXX"; if (!mkdtemp(tn)) { perror("mkdtemp"); return 2; } dir = tn; setenv("TMPDIR", tn, 1);
	size_t pg = 4096; guard = (char *) mmap(nullptr, GN + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(guard + GN, pg, PROT_NONE);
	if (H.arg.count("ids")) { enum_ids([&](const Nfa &a, const std::string &n) { run(a, n, a.n() > 3 ? 1 : 3, 3); }, 1); flush(); rmdir(dir.c_str()); return H.finish(); }
	auto D = [&](const Nfa &a) { run(a, "", a.n() < 3 ? 4 : 3, 0); };
	enum_dfas(1, 2, [&](const Nfa &a) { run(a, "", 4, 1); }); enum_dfas(1, 3, D); enum_dfas(2, 2, [&](const Nfa &a) { run(a, "", 4, T || H.idx % 5 == 0); }); enum_dfas(2, 3, [&](const Nfa &a) { if (!T && H.idx % 5) return; run(a, "", 4, 0); }); enum_dfas(3, 2, [&](const Nfa &a) { if (!T && H.idx % 7) return; run(a, "", 3, 0); }, !T);
	enum_nfas(2, 2, 2, true, [&](const Nfa &a) { if (a.start >= 0 && is_dfa_shape(a)) return; run(a, "", 2, 0); });
	{ Nfa a; if (H.take()) run(a, "no states", 0, 1); a.add(true); a.start = -1; if (H.take()) run(a, "no start", 0, 1); a.add(false); a.start = 1; if (H.take()) run(a, "no transitions, an end elsewhere", 0, 1); a.start = 0; if (H.take()) run(a, "no transitions, an end", 0, 1); a.set(1, 1, BR(0, 255)); if (H.take()) run(a, "an end, and a loop elsewhere", 0, 1); a.set(0, 0, BR(0, 255)); if (H.take()) run(a, "accepts everything, with states besides", 2, 1); Nfa b; b.add(true); b.start = 0; b.set(0, 0, BR(0, 255)); if (H.take()) run(b, "accepts everything", 2, 1); b.s[0].end = false; if (H.take()) run(b, "accepts nothing", 2, 1); }
	// eager outputs
	for (int k = 0; k < 64; k++) { if (H.stop()) break; if (!H.take()) continue; Nfa a; for (int i = 0; i < 3; i++) { a.add(k >> i & 1); for (int j = 0; j < (k >> 3 & 3) + i; j++) a.s[i].eager.insert(i * 10 + j * (k >> 5 ? 3 : 1)); } a.start = 0; a.set(0, 1, B1('a')); a.set(0, 2, B1('b')); a.set(1, 2, BR('a', 'c')); a.set(2, 0, BR(0, 255)); run(a, fmt("eager outputs %d", k), 3, 1); }
	// one state's transitions: every way of splitting the bytes at up to three places between up to three targets and nothing
	{ std::vector<int> cut = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256 };
	  for (size_t i = 0; i < cut.size(); i++) for (size_t j = i; j < cut.size(); j++) for (size_t k = j; k < cut.size(); k++) for (int x = 0; x < 256; x++) { if (H.stop()) break; if (!H.take()) continue; if (!T && H.idx % 211) continue; int to[4] = { x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6 & 3 }; Nfa a; a.add(x % 5 == 0); a.add(false); a.add(true); a.start = 0; Bytes m[3]; for (int c = 0; c < 256; c++) { int p = (c >= cut[i]) + (c >= cut[j]) + (c >= cut[k]); if (to[p] < 3) m[to[p]].set(c); } for (int q = 0; q < 3; q++) if (m[q].any()) a.set(0, q, m[q]); a.set(1, 2, BR(x, 255)); a.set(2, x % 3, B1(x)); run(a, "", 0, 0); } }
	// literal sequences
	for (int c = 0; c < 256; c++) for (const char *fo : { "0", "7a", "f", "?", "\"\\", "'%", "/*", "*/", "\n", "e", "\\" }) for (int how = 0; how < 4; how++) { if (H.stop()) break; if (!H.take()) continue; if (!T && H.idx % 7) continue; std::string s = (how == 0 ? "" : "x") + std::string(1, c) + fo + std::string(1, c) + "??/" + (char) (c ^ 1); run(chain(s, how), "sequence " + show(s) + fmt(", %d", how), 0, 0); }
	for (int n = 2; n < 9; n++) for (int z = 0; z <= n; z++) for (int how = 0; how < 4; how++) { if (H.stop()) break; if (!H.take()) continue; std::string s; for (int i = 0; i < n; i++) s += i == z ? '\0' : (char) ('a' + i); run(chain(s, how), "sequence " + show(s) + fmt(", %d", how), 0, 1); }
	for (int n : { 500, 8190, 8191, 8192, 8193, 8194, 9001 }) for (int how = 0; how < 4; how++) { if (H.stop()) break; if (!H.take()) continue; std::string s; for (int i = 0; i < n; i++) s += (char) ('a' + i % 7); std::vector<std::string> ex; for (int m : { 0, 1, n / 2, n - 2, n - 1, n, 8191, 8192, 8193 }) if (m <= n) { ex.push_back(s.substr(0, m)); ex.push_back(s.substr(0, m) + "z"); if (m > 0) { std::string x = s; x[m - 1] = 'z'; ex.push_back(x); } } ex.push_back(s + "q"); ex.push_back(s + "qq"); if (how == 2) ex.push_back(s + "q" + s.substr(n / 2)); Nfa a = chain(s, how); if (!H.begin([=] { return fmt("sequence of %d, %d", n, how); })) continue; H.nontrivial++; for (auto &x : a.s) if (x.end) x.ids = { 3, 9 }; struct fsm *f = build(a); Case c; c.idx = H.idx; c.cur = H.cur; c.a = a; bool ok = true; for (int io = 0; io < 3; io++) if (ok) ok = emit(c, f, FSM_PRINT_VMC, io, AMBIG_MULTIPLE, n < 600, false, io == 1, false, false); fsm_free(f); if (!ok) continue; flush(); bool hv[2] = { true, false }; std::string b = dir + fmt("/b%d", seq++), err; if (!cc(b, hv, c.src, &err)) { H.fail("compile", err); continue; } void *h = dlopen(("./" + b + ".so").c_str(), RTLD_NOW); Table t = dfa_table(a); for (auto &fn : c.fns) { fn.p = dlsym(h, fn.sym.c_str()); for (auto &x : ex) if (!ask1(c, fn, t, x)) break; } dlclose(h); unlink((b + ".so").c_str()); }
	// every number of distinct targets and of runs
	for (int n = 1; n <= 256; n++) for (int v = 0; v < 4; v++) { if (!T && n > 5 && n < 254 && n % 64 > 1) continue; if (H.stop()) break; if (!H.take()) continue; Nfa a; for (int i = 0; i < n + 1; i++) a.add(i % 2 == 0); a.start = v & 1 ? n : 0; for (int c = 0; c < 256; c++) { int to = v < 2 ? c % n : c * n / 256; if (v == 3 && c % 7 == 0) continue; a.set(a.start, (to + (v & 1)) % (n + 1), B1(c)); } for (int i = 0; i < n; i++) if (i != a.start) a.set(i, ((i | 1) + 1) % (n + 1) / 2 * 2, B1(i & 255)); if (is_dfa_shape(a)) run(a, fmt("%d targets, kind %d", n, v), 0, 0); }
	enum_families([&](const Nfa &a0, const std::string &n) { Nfa a = is_dfa_shape(a0) ? a0 : ref_trim(ref_dfa(a0, 600)); if (a.n() == 0) return; run(a, n, 0, 0); }, T ? 200 : 30, false, T ? 2 : 1);
	for (int k = 0; k < 3; k++) for (int n : { 40, T ? 300 : 90 }) for (int w : { 8, 60, 256 }) { if (H.stop()) break; if (!H.take()) continue; run(big(n, w, k), fmt("%d states, width %d, kind %d", n, w, k), 0, 0); }
	flush(); rmdir(dir.c_str()); return H.finish();
}
