// Specifications for lx, and what the lexers generated from them ought to do.
#pragma once
#include "vh.h"
#include <array>
#include <spawn.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <setjmp.h>
extern char **environ;
static const int LXR = 8; static const char LXS[LXR + 1] = "abc \nzA\xff"; // one byte at least for each class of bytes the patterns tell apart
static int lxsym(unsigned char c) { const char *p = (const char *) memchr(LXS, c, LXR); return p ? p - LXS : 5; }
typedef std::array<int, LXR> LRow;
struct LD { std::vector<LRow> t; std::vector<char> e; }; // a complete DFA over those bytes, starting at 0
template <class S, class St, class Ac> static LD lx_explore(S start, St step, Ac acc) { LD d; std::map<S, int> m; std::vector<S> q; m[start] = 0; q.push_back(start); for (size_t i = 0; i < q.size(); i++) { S s = q[i]; LRow r; for (int c = 0; c < LXR; c++) { S x = step(s, c); auto it = m.emplace(x, (int) q.size()); if (it.second) q.push_back(x); r[c] = it.first->second; } d.t.push_back(r); d.e.push_back(acc(s)); if (q.size() > 8000) { fprintf(stderr, "pattern too large\n"); exit(3); } } return d; }
static LD lx_min(const LD &a) { std::vector<int> c(a.t.size()); for (size_t i = 0; i < c.size(); i++) c[i] = a.e[i]; size_t n = 0; for (;;) { std::map<std::vector<int>, int> m; std::vector<int> d(c.size()); for (size_t i = 0; i < c.size(); i++) { std::vector<int> k{c[i]}; for (int x : a.t[i]) k.push_back(c[x]); d[i] = m.emplace(k, m.size()).first->second; } bool same = m.size() == n; n = m.size(); c = d; if (same) break; } return lx_explore(c[0], [&](int s, int y) { for (size_t i = 0; i < c.size(); i++) if (c[i] == s) return c[a.t[i][y]]; abort(); }, [&](int s) { for (size_t i = 0; i < c.size(); i++) if (c[i] == s) return a.e[i]; abort(); }); }
typedef std::set<int> IS;
static bool lx_any(const IS &s, const LD &a) { for (int x : s) if (a.e[x]) return true; return false; }
static IS lx_step(const IS &s, const LD &a, int c) { IS r; for (int x : s) r.insert(a.t[x][c]); return r; }
static LD lx_word(const std::string &w) { int n = w.size(); return lx_explore(0, [&](int s, int c) { return s < n && LXS[c] == w[s] ? s + 1 : n + 1; }, [&](int s) { return s == n; }); }
static LD lx_chars(const std::string &set) { return lx_explore(0, [&](int s, int c) { return s == 0 && set.find(LXS[c]) != std::string::npos ? 1 : 2; }, [](int s) { return s == 1; }); }
template <class F> static LD lx_pair(const LD &a, const LD &b, F f) { typedef std::pair<int, int> P; return lx_min(lx_explore(P(0, 0), [&](P s, int c) { return P(a.t[s.first][c], b.t[s.second][c]); }, [&](P s) { return f(a.e[s.first], b.e[s.second]); })); }
static LD lx_alt(const LD &a, const LD &b) { return lx_pair(a, b, [](bool x, bool y) { return x || y; }); }
static LD lx_and(const LD &a, const LD &b) { return lx_pair(a, b, [](bool x, bool y) { return x && y; }); }
static LD lx_sub(const LD &a, const LD &b) { return lx_pair(a, b, [](bool x, bool y) { return x && !y; }); }
static LD lx_not(LD a) { for (auto &x : a.e) x = !x; return a; }
static LD lx_cat(const LD &a, const LD &b) { typedef std::pair<int, IS> P; auto f = [&](P p) { if (a.e[p.first]) p.second.insert(0); return p; }; return lx_min(lx_explore(f(P(0, IS())), [&](const P &p, int c) { return f(P(a.t[p.first][c], lx_step(p.second, b, c))); }, [&](const P &p) { return lx_any(p.second, b); })); }
static LD lx_plus(const LD &a) { return lx_min(lx_explore(IS{0}, [&](const IS &s, int c) { IS r = lx_step(s, a, c); if (lx_any(r, a)) r.insert(0); return r; }, [&](const IS &s) { return lx_any(s, a); })); }
static LD lx_opt(const LD &a) { return lx_alt(a, lx_word("")); }
static LD lx_rev(const LD &a) { IS st; for (size_t i = 0; i < a.e.size(); i++) if (a.e[i]) st.insert(i); return lx_min(lx_explore(st, [&](const IS &s, int c) { IS r; for (size_t i = 0; i < a.t.size(); i++) if (s.count(a.t[i][c])) r.insert(i); return r; }, [](const IS &s) { return s.count(0) > 0; })); }
static bool lx_empty(const LD &a) { for (char x : a.e) if (x) return false; return true; } // every state of a result is reachable

// an expression: its text, its language, and how tightly it binds (0 |, 1 &, 2 -, 3 juxtaposed, 5 prefix, 6 postfix, 7 atom)
struct LX { std::string t; LD d; int p; bool em = false; /* an operand matches nothing */ };
static std::string lx_par(const LX &x, int p) { return x.p < p ? "(" + x.t + ")" : x.t; }
static LX lx_un_(char op, const LX &x) { switch (op) { case '*': return { lx_par(x, 6) + "*", lx_opt(lx_plus(x.d)), 6 }; case '+': return { lx_par(x, 6) + " +", lx_plus(x.d), 6 }; case '?': return { lx_par(x, 6) + "?", lx_opt(x.d), 6 }; case '~': return { "~" + lx_par(x, 5), lx_not(x.d), 5 }; case '!': return { "!" + lx_par(x, 5), lx_rev(x.d), 5 }; default: return { "^" + lx_par(x, 5), x.d, 5 }; } }
static LX lx_bin_(char op, const LX &a, const LX &b) { switch (op) { case '|': return { lx_par(a, 0) + " | " + lx_par(b, 1), lx_alt(a.d, b.d), 0 }; case '&': return { lx_par(a, 1) + " & " + lx_par(b, 2), lx_and(a.d, b.d), 1 }; case '-': return { lx_par(a, 3) + " - " + lx_par(b, 2), lx_sub(a.d, b.d), 2 }; case '\\': return { lx_par(a, 3) + " \\ " + lx_par(b, 2), lx_sub(a.d, b.d), 2 }; default: return { lx_par(a, 4) + " " + lx_par(b, 3), lx_cat(a.d, b.d), 3 }; } }

static LX lx_un(char op, const LX &x) { LX r = lx_un_(op, x); r.em = x.em || lx_empty(x.d); return r; }
static LX lx_bin(char op, const LX &a, const LX &b) { LX r = lx_bin_(op, a, b); r.em = a.em || b.em || lx_empty(a.d) || lx_empty(b.d); return r; }

// a specification: its text, and its zones; zone 0 is the outermost
struct LMap { LD d; int tok, to; bool any; /* made for a zone without a body */ };
struct LZone { std::vector<LMap> m; int parent; };
struct LSpec { std::string text; std::vector<LZone> z; std::vector<std::string> tok; bool odd = false, em = false; // odd: it must be refused for another reason
	LSpec() { z.push_back(LZone{{}, -1}); }
	int token(const std::string &s) { if (s.empty()) return -1; for (size_t i = 0; i < tok.size(); i++) if (tok[i] == s) return i; tok.push_back(s); return tok.size() - 1; }
	static std::string arrow(const std::string &t) { return t.empty() ? "" : " -> $" + t; }
	void rule(int zn, const LX &x, const std::string &t, const LD *exit = nullptr, const char *sep = "\n") { em |= x.em; text += x.t + arrow(t) + ";" + sep; z[zn].m.push_back({ exit ? lx_sub(x.d, *exit) : x.d, token(t), -1, false }); }
};
struct LTab { // one zone, ready to run
	std::vector<LRow> t; std::vector<char> live; std::vector<int> acc; bool conflict = false, empty_ok = false; };
static LTab lx_table(const LZone &z) {
	typedef std::vector<int> V; LTab r; std::vector<std::vector<char>> lv; for (auto &m : z.m) { std::vector<char> l(m.d.e.begin(), m.d.e.end()); for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < l.size(); i++) if (!l[i]) for (int x : m.d.t[i]) if (l[x]) { l[i] = 1; ch = true; break; } } lv.push_back(l); }
	std::map<V, int> ix; std::vector<V> q; V st(z.m.size(), 0); ix[st] = 0; q.push_back(st);
	for (size_t i = 0; i < q.size(); i++) { V s = q[i]; LRow row; for (int c = 0; c < LXR; c++) { V n; for (size_t k = 0; k < s.size(); k++) n.push_back(z.m[k].d.t[s[k]][c]); auto it = ix.emplace(n, (int) q.size()); if (it.second) q.push_back(n); row[c] = it.first->second; } r.t.push_back(row);
		bool l = false; int a = -1; for (size_t k = 0; k < s.size(); k++) { l |= lv[k][s[k]]; if (z.m[k].d.e[s[k]]) { if (a >= 0 && (z.m[a].tok != z.m[k].tok || z.m[a].to != z.m[k].to)) r.conflict = true; if (a < 0) a = k; } } r.live.push_back(l); r.acc.push_back(a); if (i == 0 && a >= 0) r.empty_ok = true; }
	return r;
}
enum { LT_EOF = 100, LT_ERROR, LT_UNKNOWN, LT_OTHER, LT_EITHER };
struct LPos { unsigned byte, line, col; }; struct LEv { int tok; LPos s, e; std::string text; };
static std::vector<LEv> lx_lex(const LSpec &sp, const std::vector<LTab> &tb, const std::string &in) {
	std::vector<LEv> out; std::vector<LPos> at(in.size() + 1); at[0] = { 0, 1, 1 }; for (size_t i = 0; i < in.size(); i++) { at[i + 1] = at[i]; at[i + 1].byte++; at[i + 1].col++; if (in[i] == '\n') { at[i + 1].line++; at[i + 1].col = 1; } }
	int z = 0; size_t i = 0, n = in.size();
	for (;;) { size_t j = i; int s = 0; while (j < n) { int x = tb[z].t[s][lxsym(in[j])]; if (!tb[z].live[x]) break; s = x; j++; } H.transitions += j - i + 1;
		if (j == n && i == n) { out.push_back({ LT_EOF, at[i], at[i], "" }); return out; }
		int a = tb[z].acc[s]; if (a < 0 || j == i) { out.push_back({ LT_UNKNOWN, at[i], at[j], in.substr(i, j + 1 - i) }); return out; }
		const LMap &m = sp.z[z].m[a]; if (m.to >= 0) z = m.to; if (m.tok >= 0) out.push_back({ m.tok, at[i], at[j], in.substr(i, j - i) });
		else if (j == n && m.to < 0) { int zz = z; out.push_back({ zz == 0 ? LT_EOF : m.any ? LT_UNKNOWN : LT_EITHER, at[i], at[j], in.substr(i, j - i) }); return out; }
		i = j; }
}

// running lx, and what it writes
struct LxOpt { std::vector<std::string> args; int io; /* 0 getc 1 str 2 pair */ int getc; /* 0 f 1 s 2 a 3 fd */ int buf; /* 0 dyn 1 fixed 2 none 3 both, dyn used 4 both, fixed used 5 dyn, none set */ bool pos, name, example; int low = 0; };
struct LRaw { int tok; unsigned sb, sl, sc, eb, el, ec; int len; unsigned h; char text[64]; }; // text: the token up to its NUL
typedef int (*LRun)(const unsigned char *, unsigned, LRaw *, int); typedef const char *(*LStr)(int);
struct LGen { LSpec sp; LxOpt o; std::string sym, src; LRun run = nullptr; LStr name = nullptr, example = nullptr; };
static std::string LXP, lxdir; static int lxseq;
static int lx_spawn(const std::vector<std::string> &av, const std::string &in, std::string *out, std::string *err) {
	static int f[3] = { -1, -1, -1 }; if (f[0] < 0) for (int &x : f) x = memfd_create("x", MFD_CLOEXEC); for (int x : f) { if (ftruncate(x, 0)) abort(); lseek(x, 0, SEEK_SET); } if (!in.empty() && pwrite(f[0], in.data(), in.size(), 0) != (ssize_t) in.size()) abort();
	std::vector<char *> a; for (auto &s : av) a.push_back((char *) s.c_str()); a.push_back(nullptr); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); for (int i = 0; i < 3; i++) posix_spawn_file_actions_adddup2(&fa, f[i], i); pid_t pid; if (posix_spawnp(&pid, av[0].c_str(), &fa, nullptr, a.data(), environ)) { fprintf(stderr, "cannot run %s\n", av[0].c_str()); exit(3); } posix_spawn_file_actions_destroy(&fa);
	int st; while (waitpid(pid, &st, 0) < 0) ; H.tick(); std::string *o[3] = { nullptr, out, err }; for (int i = 1; i < 3; i++) if (o[i]) { off_t n = lseek(f[i], 0, SEEK_END); o[i]->resize(n); if (n && pread(f[i], &(*o[i])[0], n, 0) != n) abort(); } return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static std::string lx_upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
// runs lx; returns its status (256 on: killed)
static int lx_generate(LGen &g, const std::string &id, std::string *err) {
	std::string api = "p" + id + "_", tk = "T" + id + "_"; static const char *gn[] = { "fgetc", "sgetc", "agetc", "fdgetc" }, *in[] = { "getc", "str", "pair" }; std::vector<std::string> av{ LXP, "-e", api, "-t", tk, "-k", in[g.o.io] };
	if (g.o.io == 0) { av.push_back("-g"); av.push_back(gn[g.o.getc]); } if (g.o.buf == 0 || g.o.buf >= 3) { av.push_back("-b"); av.push_back("dyn"); } if (g.o.buf == 1 || g.o.buf == 3 || g.o.buf == 4) { av.push_back("-b"); av.push_back("fixed"); } if (g.o.buf == 2) { av.push_back("-x"); av.push_back("buf"); } if (!g.o.pos) { av.push_back("-x"); av.push_back("pos"); } if (!g.o.name) { av.push_back("-x"); av.push_back("name"); } if (!g.o.example) { av.push_back("-x"); av.push_back("example"); }
	for (auto &a : g.o.args) av.push_back(a); auto hv = av; hv.push_back("-l"); hv.push_back("h"); av.push_back("-l"); av.push_back("c"); std::string c, h; int r = lx_spawn(av, g.sp.text, &c, err); if (r) return r; r = lx_spawn(hv, g.sp.text, &h, err); if (r) return r;
	std::string s = "#undef LX_H\n#undef LX_DYN_LOW\n#undef LX_DYN_HIGH\n"; if (g.o.low) s += fmt("#define LX_DYN_LOW %d\n#define LX_DYN_HIGH %d\n", g.o.low, g.o.low * 2); for (const char *x : { "lx_pos", "lx_arr", "lx_fd", "lx_dynbuf", "lx_fixedbuf", "fsm_getc", "z0", "z1", "z2", "z3", "z4", "z5", "z6" }) s += fmt("#undef %s\n#define %s %s%s\n", x, x, x, id.c_str());
	s += h + c; g.sym = "r" + id; std::string L = "struct " + api + "lx";
	s += "int r" + id + "(const unsigned char *in, unsigned n, struct ev *out, int max)\n{\n\tint k, more = 0; " + L + " lx; struct ev *v; enum " + api + "token t;\n\t" + api + "init(&lx);\n";
	bool dyn = g.o.buf == 0 || g.o.buf == 3, fix = g.o.buf == 1 || g.o.buf == 4; if (dyn) s += "\tstruct lx_dynbuf b = { 0 }; lx.buf_opaque = &b; lx.push = " + api + "dynpush; lx.clear = " + api + "dynclear; lx.free = " + api + "dynfree;\n"; if (fix) s += "\tstatic char ba[1 << 18]; struct lx_fixedbuf b = { 0 }; b.a = b.p = ba; b.len = sizeof ba; lx.buf_opaque = &b; lx.push = " + api + "fixedpush; lx.clear = " + api + "fixedclear;\n";
	if (g.o.io == 1) s += "\t" + api + "input_str(&lx, (const char *) in);\n"; else if (g.o.io == 2) s += "\tlx.p = (const char *) in; lx.e = lx.p + n;\n"; else { static const char *gf[] = { "fgetc", "sgetc", "agetc", "dgetc" }; s += "\tlx.lgetc = " + api + gf[g.o.getc] + ";\n"; switch (g.o.getc) { case 0: s += "\tFILE *f = fmemopen(n ? (void *) in : (void *) \"x\", n ? n : 1, \"r\"); if (!n) fgetc(f); lx.getc_opaque = f;\n"; break; case 1: s += "\tconst char *sp = (const char *) in; lx.getc_opaque = &sp;\n"; break; case 2: s += "\tstruct lx_arr ar = { (char *) in, n }; lx.getc_opaque = &ar;\n"; break; case 3: s += "\tchar fb[3]; struct lx_fd fd = { 0 }; fd.buf = fd.p = fb; fd.bufsz = sizeof fb; fd.fd = open_input(in, n); lx.getc_opaque = &fd;\n"; break; } }
	s += "\tfor (k = 0; k < max; k++) { v = &out[k]; memset(v, 0, sizeof *v - sizeof v->text); v->len = -1; t = " + api + "next(&lx);\n";
	if (g.o.pos) s += "\t\tv->sb = lx.start.byte; v->sl = lx.start.line; v->sc = lx.start.col; v->eb = lx.end.byte; v->el = lx.end.line; v->ec = lx.end.col;\n"; if (dyn || fix) s += "\t\tv->len = b.p - b.a; memcpy(v->text, b.a, v->len < 64 ? v->len : 64); v->h = hash(b.a, v->len);\n";
	s += "\t\tswitch (t) {\n"; for (size_t i = 0; i < g.sp.tok.size(); i++) s += fmt("\t\tcase %s%s: v->tok = %zu; break;\n", tk.c_str(), lx_upper(g.sp.tok[i]).c_str(), i); s += fmt("\t\tcase %sEOF: v->tok = 100; more++; break; case %sERROR: v->tok = 101; more++; break; case %sUNKNOWN: v->tok = 102; more++; break; default: v->tok = 103; }\n", tk.c_str(), tk.c_str(), tk.c_str());
	s += "\t\tif (more == 2) { k++; break; }\n\t}\n"; if (dyn) s += "\tlx.free(lx.buf_opaque);\n"; if (g.o.io == 0 && g.o.getc == 0) s += "\tfclose(f);\n"; if (g.o.io == 0 && g.o.getc == 3) s += "\tclose(fd.fd);\n"; s += "\treturn k;\n}\n";
	if (g.o.name) s += "const char *n" + id + "(int i) { return " + api + "name((enum " + api + "token) i); }\n"; if (g.o.example) s += "const char *x" + id + "(int i) { " + L + " lx; " + api + "init(&lx); return " + api + "example(lx.z, (enum " + api + "token) i); }\n";
	g.src = s; return 0;
}
static const char *LXHEAD = "#define _GNU_SOURCE\n#include <string.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <stddef.h>\n#include <sys/mman.h>\n#include <unistd.h>\nstruct ev { int tok; unsigned sb, sl, sc, eb, el, ec; int len; unsigned h; char text[64]; };\nstatic unsigned hash(const char *p, int n) { unsigned h = 2166136261u; while (n-- > 0) h = (h ^ (unsigned char) *p++) * 16777619u; return h; }\nstatic int open_input(const unsigned char *in, unsigned n) { int f = memfd_create(\"i\", 0); if (write(f, in, n) != (ssize_t) n) abort(); lseek(f, 0, SEEK_SET); return f; }\n#define LX_HEADER <stddef.h>\n";
static void *lx_compile(const std::vector<LGen *> &gs, std::string *err) {
	std::string base = lxdir + fmt("/b%d", lxseq++), c = base + ".c", so = base + ".so"; FILE *f = fopen(c.c_str(), "w"); if (!f) { perror(c.c_str()); exit(2); } fputs(LXHEAD, f); for (auto g : gs) fputs(g->src.c_str(), f); if (fclose(f)) { perror("write"); exit(2); }
	int r = lx_spawn({ "gcc", "-O0", "-fPIC", "-w", "-std=gnu99", "-shared", "-o", so, c }, "", nullptr, err); unlink(c.c_str()); H.counters["compilations"]++; if (r) { unlink(so.c_str()); return nullptr; }
	void *h = dlopen(("./" + so).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } unlink(so.c_str()); for (auto g : gs) { g->run = (LRun) dlsym(h, g->sym.c_str()); if (g->o.name) g->name = (LStr) dlsym(h, ("n" + g->sym.substr(1)).c_str()); if (g->o.example) g->example = (LStr) dlsym(h, ("x" + g->sym.substr(1)).c_str()); } return h;
}
static unsigned lx_hash(const char *p, int n) { unsigned h = 2166136261u; while (n-- > 0) h = (h ^ (unsigned char) *p++) * 16777619u; return h; }
static std::string lx_evs(const std::vector<LEv> &v) { std::string o; for (auto &e : v) o += fmt("%s%s", o.empty() ? "" : " ", e.tok == LT_EOF ? "EOF" : e.tok == LT_UNKNOWN ? "UNKNOWN" : e.tok == LT_EITHER ? "EOF|UNKNOWN" : e.tok == LT_ERROR ? "ERROR" : fmt("%d", e.tok).c_str()) + fmt("[%u:%u:%u-%u:%u:%u]", e.s.byte, e.s.line, e.s.col, e.e.byte, e.e.line, e.e.col) + show(e.text); return o; }
static void lx_trap(); static char *lxguard; static const size_t LXG = 1 << 18;
static void lx_guard() { lxguard = (char *) mmap(nullptr, LXG + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(lxguard + LXG, 4096, PROT_NONE); lx_trap(); }
static sigjmp_buf lxjb; static volatile int lxin; static const char *lxwhat;
extern "C" void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept { if (lxin) { lxwhat = e; siglongjmp(lxjb, 1); } fprintf(stderr, "assertion %s\n", e); abort(); }
static void lx_segv(int) { if (!lxin) { signal(SIGSEGV, SIG_DFL); return; } lxwhat = "out-of-bounds access"; siglongjmp(lxjb, 1); }
static void lx_trap() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = lx_segv; sa.sa_flags = SA_ONSTACK | SA_NODEFER; stack_t st = { malloc(65536), 0, 65536 }; sigaltstack(&st, nullptr); sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); }
// one input: what is wrong with the lexer's answers, or nothing; key says which kind of thing
static std::string lx_ask(const LGen &g, const std::vector<LTab> &tb, const std::string &in, std::string *key) {
	std::vector<LEv> want = lx_lex(g.sp, tb, in); H.traces++; size_t n = in.size(), z = g.o.io == 1 || (g.o.io == 0 && g.o.getc == 1); char *b = lxguard + LXG - n - z; memcpy(b, in.data(), n); if (z) b[n] = 0; static std::vector<LRaw> raw; if (raw.size() < n + 4) raw.resize(n + 4); if (sigsetjmp(lxjb, 0)) { lxin = 0; *key = "crash"; return std::string(lxwhat) + " on " + show(in.substr(0, 100)); } lxin = 1; int k = g.run((unsigned char *) b, n, raw.data(), n + 4); lxin = 0;
	std::vector<LEv> got; for (int i = 0; i < k; i++) got.push_back({ raw[i].tok, { raw[i].sb, raw[i].sl, raw[i].sc }, { raw[i].eb, raw[i].el, raw[i].ec }, std::string(raw[i].text, raw[i].len < 0 ? 0 : std::min(raw[i].len, 64)) });
	auto bad = [&](const char *k, const char *w) { *key = k; return fmt("%s on %s: gave ", w, show(in.substr(0, 100)).c_str()) + lx_evs(got).substr(0, 600) + ", want " + lx_evs(want).substr(0, 600); };
	if (got.size() != want.size() + 1) return bad("tokens", "number of tokens"); if (got.back().tok != LT_EOF) return bad("tokens", "asking again");
	for (size_t i = 0; i < want.size(); i++) { auto &w = want[i], &x = got[i]; if (w.tok == LT_EITHER ? x.tok != LT_EOF && x.tok != LT_UNKNOWN : x.tok != w.tok) return bad("tokens", "tokens"); bool unk = w.tok == LT_UNKNOWN || w.tok == LT_EITHER, eof = w.tok == LT_EOF;
		if (g.o.pos) { if (memcmp(&x.e, &w.e, sizeof x.e)) return bad("position", "end position"); if (!eof && memcmp(&x.s, &w.s, sizeof x.s)) return bad("position", "start position"); }
		if (g.o.buf != 2 && g.o.buf != 5 && g.o.buf != 6 && !eof && !unk) { size_t l = w.text.size(); if (raw[i].len != (int) l + 1) return bad("text", "length of the text"); if (raw[i].h != lx_hash(w.text.c_str(), l + 1) || memcmp(x.text.data(), w.text.c_str(), std::min<size_t>(l + 1, 64))) return bad("text", "text"); } }
	return "";
}
// bytes which some zone tells apart
static std::string lx_alphabet(const std::vector<LTab> &tb) { std::string r; std::set<std::vector<int>> seen; for (int c = 0; c < LXR; c++) { std::vector<int> v; for (auto &t : tb) for (auto &row : t.t) v.push_back(row[c]); if (LXS[c] == '\n') v.push_back(1); if (seen.insert(v).second) r += LXS[c]; else if (LXS[c] == '\xff') r.back() = r.back() == 'z' ? '\xff' : r.back(); } return r; }
static void lx_inputs(const std::string &al, size_t budget, const std::function<bool(const std::string &)> &f) { std::vector<std::string> cur{""}; size_t n = 0; while (n < budget) { if (n && n + cur.size() > budget * 2) return; for (auto &s : cur) { n++; if (!f(s)) return; } std::vector<std::string> nx; for (auto &s : cur) for (char c : al) nx.push_back(s + c); cur.swap(nx); } }
