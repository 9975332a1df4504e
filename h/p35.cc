// P35: the fsm and re programs do what their options say. Each case runs the real programs on enumerated machines and patterns.
#include "gen.h"
#include "rx.h"
#include "astread.h"
#include "fsmtext.h"
#include <spawn.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern "C" {
#include <re/literal.h>
}
extern char **environ;
static std::string FSM, RE, dir;
struct Res { int st; std::string out, err; std::string cmd; };
static int ofd = -1, efd = -1, ifd = -1;
static std::string slurp(int fd) { std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); if (n && pread(fd, &s[0], n, 0) != n) abort(); return s; }
static std::string put(const char *name, const std::string &s) { std::string p = dir + "/" + name; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) { perror(p.c_str()); exit(3); } close(fd); return p; }
static Res run(const std::vector<std::string> &av, const std::string &in = "") {
	if (ofd < 0) { ofd = memfd_create("o", 0); efd = memfd_create("e", 0); ifd = memfd_create("i", 0); }
	for (int f : { ofd, efd, ifd }) { if (ftruncate(f, 0)) abort(); lseek(f, 0, SEEK_SET); } if (!in.empty() && pwrite(ifd, in.data(), in.size(), 0) != (ssize_t) in.size()) abort();
	std::vector<char *> a; for (auto &s : av) a.push_back((char *) s.c_str()); a.push_back(nullptr); Res r;
	for (size_t i = 0; i < av.size(); i++) r.cmd += (i ? " " : "") + (i ? av[i] : av[0] == FSM ? std::string("fsm") : std::string("re"));
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, ifd, 0); posix_spawn_file_actions_adddup2(&fa, ofd, 1); posix_spawn_file_actions_adddup2(&fa, efd, 2); pid_t pid;
	if (posix_spawn(&pid, av[0].c_str(), &fa, nullptr, a.data(), environ)) { fprintf(stderr, "cannot run %s\n", av[0].c_str()); exit(3); }
	posix_spawn_file_actions_destroy(&fa); int st; while (waitpid(pid, &st, 0) < 0) ; H.traces++; H.tick();
	r.st = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); r.out = slurp(ofd); r.err = slurp(efd);
	if (r.st >= 256 || r.err.find("Assertion") != std::string::npos) H.fail("crash", r.cmd + fmt(": signal %d ", r.st - 256) + r.err.substr(0, 200));
	return r;
}
static std::vector<std::string> F(std::vector<std::string> v) { v.insert(v.begin(), FSM); return v; }
static std::vector<std::string> Q(std::vector<std::string> v) { v.insert(v.begin(), RE); return v; }
static void want(const Res &r, bool ok, const char *key, const std::string &why) { if (r.st < 256 && (r.st == 0) != ok) H.fail(key, r.cmd + fmt(": exits %d; ", r.st) + why + " " + r.err.substr(0, 150)); }
static bool machine(const Res &r, Nfa &a, const char *key) { if (r.st) { if (r.st < 256) H.fail(key, r.cmd + fmt(": exits %d ", r.st) + r.err.substr(0, 150)); return false; } Doc d; fsm_read(r.out, d); if (!d.ok) { H.fail(key, r.cmd + ": output isn't a machine: " + r.out.substr(0, 200)); return false; } a = d.a; if (a.start < 0) { a.start = a.add(); } return true; }
static void lang(const Res &r, const Nfa &w, int what, const char *key, Nfa *o = nullptr) { Nfa a; if (!machine(r, a, key)) return; Diff d = compare(w, a, what, 20000); if (d.differ) H.fail(key, r.cmd + ": " + d.why); if (o) *o = a; }
static Nfa neg(const Nfa &a) { Nfa d = ref_dfa(a); for (auto &s : d.s) { s.end = !s.end; s.ids.clear(); } return d; }
static bool avoid(const Nfa &a, int c) { std::vector<char> v(a.n(), 0); std::vector<int> q; if (a.start < 0) return false; q.push_back(a.start); v[a.start] = 1; for (size_t i = 0; i < q.size(); i++) { if (a.s[q[i]].end) return true; for (auto &e : a.s[q[i]].e) { if (v[e.second]) continue; Bytes b = e.first; if (c >= 0) b.reset(c); if (b.any()) { v[e.second] = 1; q.push_back(e.second); } } } return false; }
static std::string printed(struct fsm *f, const struct fsm_options &o, enum fsm_print_lang l, int *r) { char *b = nullptr; size_t n = 0; FILE *m = open_memstream(&b, &n); *r = fsm_print(m, f, &o, nullptr, l); fclose(m); std::string s(b, n); free(b); return s; }
// bytes which can be in an argument, one for each class
static std::vector<unsigned char> argbytes(const Nfa &a) { unsigned char cls[256]; byte_classes({&a}, cls); std::map<int, unsigned char> m; for (int c = 1; c < 256; c++) { unsigned char x = (c + 96) % 256; if (x) m.emplace(cls[x], x); } std::vector<unsigned char> v; for (auto &p : m) v.push_back(p.second); return v; }

static void unary(const Nfa &a0, const std::string &name, int len) {
	Nfa a = a0; assign_ids(a, H.idx % 5); if (!H.begin([&] { return "fsm " + (name.empty() ? a.str() : name); })) return;
	if (!ref_empty(a)) H.nontrivial++; std::string text = fsm_write(a), p = put("a.fsm", text); const int L = CMP_END, I = CMP_END | CMP_IDS; Nfa g; int k = H.idx;
	auto t = [&](std::vector<std::string> names, const char *flag, int j) -> std::vector<std::string> { size_t i = (k + j) % (names.size() + !!flag); std::vector<std::string> v{"-p"}; if (i == names.size()) v.push_back(flag); else { v.push_back("-t"); v.push_back(names[i]); } if ((k + j) % 3) { v.push_back(p); } else if ((k + j) % 2) v.push_back("-"); return F(v); };
	auto in = text; unsigned char cls[256]; Nfa d = ref_dfa(a, 120); if (!d.n()) { H.counters["skipped_blowup"]++; return; }
	lang(run(F({"-p", p})), a, I, "print", &g); if (g.n() != a.n()) H.fail("print", fmt("%zu states, want %zu", g.n(), a.n()));
	lang(run(t({"complete"}, nullptr, 0), in), a, L, "complete", &g); for (auto &s : g.s) { Bytes b; for (auto &e : s.e) b |= e.first; if (is_dfa_shape(a) && !b.all()) { H.fail("complete", "a state lacks transitions"); break; } }
	lang(run(t({"complement", "invert"}, nullptr, 1), in), neg(a), L, "complement");
	lang(run(t({"reverse", "rev"}, "-r", 2), in), ref_reverse(a), L, "reverse");
	std::string why; lang(run(t({"determinise", "dfa", "todfa"}, "-d", 3), in), a, I, "determinise", &g); if (!is_dfa_shape(g, &why)) H.fail("determinise", why);
	lang(run(t({"min", "minimise"}, "-m", 4), in), a, I, "minimise", &g); if (!is_dfa_shape(g, &why)) H.fail("minimise", why); { size_t m = ref_min_states(a, I); if (g.n() != std::max<size_t>(m, 1)) H.fail("minimise", fmt("%zu states, want %zu", g.n(), m)); }
	lang(run(t({"trim"}, nullptr, 5), in), a, I, "trim", &g); if (g.n() > std::max<size_t>(ref_trim(a).n(), 1)) H.fail("trim", fmt("%zu states left", g.n()));
	lang(run(t({"remove_epsilons"}, "-E", 6), in), a, I, "remove_epsilons", &g); for (auto &s : g.s) if (!s.eps.empty()) { H.fail("remove_epsilons", "epsilon left"); break; }
	// character sets
	for (const char *cs : { "a", "ab", "\n\xff" }) { Nfa c; c.start = c.add(true); Bytes b = BS(cs); c.set(0, 0, b); lang(run(F({"-pU", cs, p})), ref_product(a, c, [](bool x, bool y) { return x && y; }), L, "charset"); if (k % 3) break; }
	// queries
	bool dfa = is_dfa_shape(a), eps = false, end = false, comp = true, nd = false; for (auto &s : a.s) { eps |= !s.eps.empty(); end |= s.end; Bytes b, two; for (auto &e : s.e) { two |= b & e.first; b |= e.first; } comp &= b.all(); nd |= two.any(); }
	auto query = [&](std::vector<std::string> v, bool w, int j) { want(run(F({"-q", v[(k + j) % v.size()], p})), w, "query", w ? "should be true" : "should be false"); };
	query({"isdfa", "dfa"}, dfa, 0); if (!eps) query({"iscomplete"}, comp, 1); query({"hasend", "end", "accept", "hasaccept"}, end, 2); if (!eps) query({"ambiguity", "hasambiguity", "hasnondeterminism"}, nd, 3); query({"hasepsilons", "epsilons"}, eps, 4);
	{ Res r = run(F({"-q", "count", p})); if (r.st || r.out != fmt("%zu\n", a.n())) H.fail("count", r.cmd + ": prints " + r.out); }
	{ std::string w; for (size_t i = 0; i < a.n(); i++) { std::set<int> s{(int) i}; std::vector<int> q{(int) i}; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int y : a.s[x].eps) if (s.insert(y).second) q.push_back(y); } if (k % 2) w += fmt("%zu: ", i); bool f = true; for (int x : s) { w += fmt("%s%d", f ? "" : " ", x); f = false; } w += "\n"; }
	  Res r = run(k % 2 ? F({"-q", "epsilonclosure", p}) : F({"-aq", "epsilonclosure", p})); if (r.st || r.out != w) H.fail("epsilonclosure", r.cmd + ": prints " + r.out.substr(0, 200)); }
	if (!dfa) { want(run(F({"-G", "3", p})), false, "generate-nfa", "there is no DFA"); a = d; in = text = fsm_write(a); p = put("a.fsm", text); }
	// the rest is for a DFA
	if (avoid(a, -1)) { Bytes w, present; for (auto &s : a.s) for (auto &e : s.e) present |= e.first; for (int c = 0; c < 256; c++) if (present[c] && !avoid(a, c)) w.set(c); bool plain = true; std::string s; for (int c = 0; c < 256; c++) if (w[c]) { if (!isalnum(c)) plain = false; s += (char) c; }
		Res r = run(F({"-S", "20000", "-q", k % 2 ? "requiredchars" : "chars", p})); if (r.err.find("step limit") != std::string::npos) { H.counters["step_limited"]++; if (!r.st) H.fail("requiredchars", r.cmd + ": exits 0 at the limit"); } else { std::string head = fmt("%zu ", w.count()); if (r.st || r.out.compare(0, head.size(), head) || (plain && r.out != head + s + "\n")) H.fail("requiredchars", r.cmd + ": prints " + r.out.substr(0, 200) + ", want " + show(w)); } }
	auto al = argbytes(a); int n = 0; std::vector<std::string> yes; all_strings(al, al.size() > 4 ? 1 : len, [&](const std::string &s) { if (s[0] == '-') return true; bool acc = ref_accepts(a, s); if (acc) yes.push_back(s); if (++n % 5 == k % 5 || n < 9) { want(run(F({p, s})), acc, "execute", show(s) + (acc ? " is accepted" : " isn't accepted")); if (n % 3 == 0) { std::string f = put("t", s); want(run(F({"-x", p, f})), acc, "execute-file", show(s)); if (acc) want(run(F({"-x", p, f, f})), true, "execute-file", "the same file twice"); } } return n < 120; });
	if (!yes.empty()) { std::vector<std::string> v{p}; for (size_t i = 0; i < yes.size() && i < 12; i++) v.push_back(yes[i]); want(run(F(v)), true, "execute-many", "every text is accepted"); std::string no; bool have = false; all_strings(al, 2, [&](const std::string &s) { if (!ref_accepts(a, s)) { no = s; have = true; } return !have; }); if (have) for (size_t at = 1; at <= v.size(); at += std::max<size_t>(1, v.size() - 1)) { auto u = v; u.insert(u.begin() + at, no); want(run(F(u)), false, "execute-many", show(no) + " isn't accepted"); } }
	want(run(F({p})), true, "validate", "nothing to do"); want(run(F({}), in), true, "validate", "nothing to do");
	// printing: as the library prints the same machine
	static const struct { const char *n; enum fsm_print_lang l; } langs[] = { {"api", FSM_PRINT_API}, {"awk", FSM_PRINT_AWK}, {"c", FSM_PRINT_C}, {"dot", FSM_PRINT_DOT}, {"fsm", FSM_PRINT_FSM}, {"ir", FSM_PRINT_IR}, {"json", FSM_PRINT_JSON}, {"vmc", FSM_PRINT_VMC}, {"vmdot", FSM_PRINT_VMDOT}, {"rust", FSM_PRINT_RUST}, {"llvm", FSM_PRINT_LLVM}, {"sh", FSM_PRINT_SH}, {"go", FSM_PRINT_GO}, {"amd64", FSM_PRINT_AMD64_NASM}, {"amd64_att", FSM_PRINT_AMD64_ATT}, {"amd64_nasm", FSM_PRINT_AMD64_NASM}, {"amd64_go", FSM_PRINT_AMD64_GO} };
	FILE *tf = fopen(p.c_str(), "r"); struct fsm *f = fsm_parse(tf, nullptr); fclose(tf);
	for (size_t i = 0; i < sizeof langs / sizeof *langs; i++) { if (i % 3 != (size_t) k % 3) continue; for (int how = 0; how < 3; how++) {
		struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_MULTIPLE; o.comments = 1; o.io = FSM_IO_GETC; int bits = (k * 7 + i * 3 + how * 5) % 64; std::string fl = "-";
		if (bits & 1) { o.anonymous_states = 1; fl += "a"; } if (bits & 2) { o.consolidate_edges = 1; fl += "c"; } if (bits & 4) { o.comments = 0; fl += "C"; } if (bits & 8) { o.group_edges = 1; fl += "g"; } if (bits & 16) { o.fragment = 1; fl += "w"; } if (bits & 32) { o.always_hex = 1; fl += "X"; }
		static const char *const ios[] = { "getc", "str", "pair" }; std::vector<std::string> v; if (fl.size() > 1) v.push_back(fl); o.io = (enum fsm_io) how; static const enum fsm_io iov[] = { FSM_IO_GETC, FSM_IO_STR, FSM_IO_PAIR }; o.io = iov[how]; v.push_back("-k"); v.push_back(ios[how]); if ((k + how) % 2) { o.prefix = "zz"; v.push_back("-e"); v.push_back("zz"); } v.push_back("-pl"); v.push_back(langs[i].n); if (v.back() == "fsm" && how == 1) { v.pop_back(); v.back() = "-p"; } v.push_back(p);
		int pr; std::string w = printed(f, o, langs[i].l, &pr); Res r = run(F(v)); if (r.st != (pr == 0 ? 0 : 1)) H.fail("print-status", r.cmd + fmt(": exits %d; fsm_print returns %d", r.st, pr)); else if (pr == 0 && r.out != w) H.fail("print-output", r.cmd + ": not what fsm_print prints"); } }
	fsm_free(f);
	// generated words, one for each path
	{ size_t gl = 2 + k % 2; std::vector<std::string> w; bool plain = true; std::set<std::pair<int, int>> pairs; for (auto &s : a.s) for (auto &e : s.e) { int c = 0; while (c < 256 && !e.first[c]) c++; if (!isalnum(c) && c < 256) { bool any = false; for (int x = 32; x < 127; x++) any |= e.first[x]; plain &= any; } }
	  Nfa tr = ref_trim(a); std::function<void(int, std::string)> rec = [&](int s, std::string x) { if (w.size() > 400) return; if (tr.s[s].end) w.push_back(x); if (x.size() == gl) return; std::map<int, Bytes> m; for (auto &e : tr.s[s].e) m[e.second] |= e.first; for (auto &q : m) { int c = 32; while (c < 127 && !q.second[c]) c++; if (c == 127) for (c = 0; c < 256 && !q.second[c]; ) c++; rec(q.first, x + (char) c); } }; if (tr.n() && tr.start >= 0) rec(tr.start, "");
	  if (w.size() <= 400) { Res r = run(F({"-G", fmt("%zu", gl), p})); size_t lines = std::count(r.out.begin(), r.out.end(), '\n'); if (r.st || lines != w.size()) H.fail("generate", r.cmd + fmt(": exits %d with %zu lines, want %zu", r.st, lines, w.size())); else { size_t at = 0; for (size_t i = 0; i < lines; i++) { size_t e = r.out.find('\n', at); std::string s = r.out.substr(at, e - at); at = e + 1; bool esc = false; for (unsigned char c : s) esc |= c == '\\' || c < 32 || c > 126; if (!esc && (s.size() > gl || !ref_accepts(a, s))) { H.fail("generate", r.cmd + ": prints " + show(s)); break; } } } } }
}
static void binary(const Nfa &a0, const Nfa &b0, const std::string &name) {
	Nfa a = a0, b = b0; if (!H.begin([&] { return "fsm " + (name.empty() ? a.str() + "  WITH  " + b.str() : name); })) return; if (!ref_empty(a) && !ref_empty(b)) H.nontrivial++;
	std::string p = put("a.fsm", fsm_write(a)), q = put("b.fsm", fsm_write(b)); int k = H.idx; bool ea = false; for (auto &s : a.s) ea |= s.end;
	auto t = [&](std::vector<std::string> names) { return F({"-p", "-t", names[k % names.size()], p, q}); };
	if (ea) lang(run(t({"cat", "concat"})), ref_concat(a, b), CMP_END, "concat");
	lang(run(t({"union"})), ref_union({&a, &b}), CMP_END, "union");
	lang(run(t({"intersect"})), ref_product(a, b, [](bool x, bool y) { return x && y; }), CMP_END, "intersect");
	lang(run(t({"subtract", "sub", "minus"})), ref_product(a, b, [](bool x, bool y) { return x && !y; }), CMP_END, "subtract");
	bool eq = !compare(a, b, CMP_END).differ; want(run(F({"-t", k % 2 ? "equal" : "equals", p, q})), eq, "equal", eq ? "they are equal" : "they differ"); want(run(F({"-t", "equal", p, p})), true, "equal", "the same file");
	// results of operations can be executed at once
	if (k % 3 == 0) { Nfa u = ref_union({&a, &b}); lang(run(F({"-pt", "union", "-U", "ab", p, q})), ref_product(u, [] { Nfa c; c.start = c.add(true); c.set(0, 0, BS("ab")); return c; }(), [](bool x, bool y) { return x && y; }), CMP_END, "union-charset");
		for (const char *s : { "", "a", "ab" }) { Nfa x = ref_product(a, b, [](bool x, bool y) { return x && y; }); if (is_dfa_shape(a) && is_dfa_shape(b)) want(run(F({"-t", "intersect", p, q, s})), ref_accepts(x, s), "intersect-execute", show(std::string(s))); } }
}
struct P { R r; std::string t; };
// ---- re ----
static void rex(const std::vector<P> &ps, int mode) {
	int k = H.idx; bool u = k % 2, cat = mode == 1, anch = mode == 2, ic = mode == 3;
	if (!H.begin([&] { std::string o = fmt("re%s%s%s%s", u ? " -u" : "", cat ? " -s" : "", anch ? " -b" : "", ic ? " -i" : ""); for (auto &p : ps) o += " " + show(p.t); return o; })) return; H.nontrivial++;
	std::vector<Nfa> m; for (auto &p : ps) { int fl = ic ? F_I : 0; RxOpt o; o.end_nl = !anch; o.anchored_start = o.anchored_end = anch; o.end_nl = true; m.push_back(rx_nfa(rx_resolve(p.r, fl), o)); }
	for (size_t i = 0; i < m.size(); i++) for (auto &s : m[i].s) if (s.end) s.ids.insert(i);
	Nfa w; if (cat) { w = m[0]; for (size_t i = 1; i < m.size(); i++) w = ref_concat(w, m[i]); } else { std::vector<const Nfa *> v; for (auto &x : m) v.push_back(&x); w = ref_union(v); }
	bool clash = false; { Nfa d = ref_dfa(w, 3000); if (!d.n()) { H.counters["skipped_blowup"]++; return; } for (auto &s : d.s) clash |= s.end && s.ids.size() > 1; }
	std::vector<std::string> base{"-r", "pcre"}; if (u) base.push_back("-u"); if (cat) base.push_back("-s"); if (anch) { if (k % 3) base.push_back("-b"); else { base.push_back("-F"); base.push_back("b"); } } if (ic) { if (k % 3) base.push_back("-i"); else { base.push_back("-F"); base.push_back("i"); } }
	bool files = k % 5 == 1; std::vector<std::string> pats; for (size_t i = 0; i < ps.size(); i++) pats.push_back(files ? put(fmt("p%zu", i).c_str(), ps[i].t) : ps[i].t); if (files) base.push_back("-y");
	auto cmd = [&](std::vector<std::string> opt, std::vector<std::string> rest, bool dd = true) { auto v = base; v.insert(v.end(), opt.begin(), opt.end()); v.insert(v.end(), "--"); for (auto &p : pats) v.push_back(p); if (dd && !rest.empty()) v.push_back("--"); v.insert(v.end(), rest.begin(), rest.end()); return Q(v); };
	bool conf = clash && !u;
	// printing
	Res r = run(cmd({"-p"}, {})); if (conf) { want(r, false, "conflict", "more than one pattern matches the same text"); if (r.err.find("ambiguous matches for ") == std::string::npos) H.fail("conflict", r.cmd + ": no message"); } else { Nfa g; lang(r, w, CMP_END | CMP_IDS, "print", &g); std::string why; if (!is_dfa_shape(g, &why)) H.fail("print", r.cmd + ": " + why); }
	r = run(cmd({"-pn"}, {})); lang(r, w, CMP_END | CMP_IDS, "print-nfa"); // -n implies -u
	if (ps.size() == 1 || k % 3 == 0) { Res j = run(cmd({"-l", "json"}, {})); want(j, !conf, "print-json", conf ? "ambiguous" : ""); }
	// execution
	static const std::vector<std::string> texts = { "", "a", "b", "ab", "ba", "aab", "abc", "A", "c", "a\n", "aB" }; int n = 0; std::vector<std::string> yes;
	for (auto &s : texts) { Ids ids; bool acc = ref_accepts(w, s, &ids); if (acc) yes.push_back(s); if ((n++ + k) % 3) continue; std::vector<std::string> opt; bool z = !cat && k % 2, x = n % 4 == 1; if (z) opt.push_back("-z"); std::vector<std::string> txt{s}; if (x) { opt.push_back("-x"); txt[0] = put("t", s); } if (k % 4 == 3) opt.push_back("-M");
		if (z && k % 4 == 3) continue; // -z with -M: not specified
		r = run(cmd(opt, txt, ps.size() > 1 || n % 2)); want(r, !conf && acc, "execute", show(s) + (conf ? " (ambiguous)" : acc ? " matches" : " doesn't match"));
		if (z && !conf) { std::string o; if (acc) for (auto i : ids) o += "match: /" + pats[i] + "/\n"; if (r.out != o) H.fail("patterns", r.cmd + ": prints " + show(r.out) + ", want " + show(o)); } }
	if (!conf && yes.size() > 1) { want(run(cmd({}, yes)), true, "execute-many", "every text matches"); for (auto &s : texts) if (!ref_accepts(w, s)) { auto v = yes; v.insert(v.begin() + k % (v.size() + 1), s); want(run(cmd({}, v)), false, "execute-many", show(s) + " doesn't match"); break; } }
	// examples
	r = run(cmd({"-m"}, {})); want(r, !conf, "example", ""); if (!conf) { size_t at = 0, lines = 0; while (at < r.out.size()) { size_t e = r.out.find('\n', at); std::string s = r.out.substr(at, e - at); at = e + 1; lines++; bool odd = false; for (unsigned char c : s) odd |= c == '\\' || c < 32 || c > 126; if (!odd && !ref_accepts(w, s) && s.size() < 250) { H.fail("example", r.cmd + ": prints " + show(s)); break; } } if (ref_empty(w) && lines) H.fail("example", r.cmd + ": prints an example when there is none"); if (!ref_empty(w) && !lines) H.fail("example", r.cmd + ": prints no example"); }
	if (!cat && !conf) { r = run(cmd({"-mz"}, {})); want(r, true, "example-patterns", ""); size_t at = 0; while (at < r.out.size()) { size_t e = r.out.find('\n', at); std::string s = r.out.substr(at, e - at); at = e + 1; size_t c = s.find(": "); if (c == std::string::npos) break; std::string ex = s.substr(c + 2), o; Ids ids; bool odd = false; for (unsigned char ch : ex) odd |= ch == '\\' || ch < 32 || ch > 126; if (odd || ex.size() > 250) continue; if (!ref_accepts(w, ex, &ids)) { H.fail("example-patterns", r.cmd + ": prints " + show(s)); break; } for (auto i : ids) o += (o.empty() ? "/" : ", /") + pats[i] + "/"; if (o != s.substr(0, c)) { H.fail("example-patterns", r.cmd + ": prints " + show(s) + ", want " + o); break; } } }
	// words
	if (ps.size() == 1 && anch) { r = run(cmd({"-G", "3"}, {})); want(r, true, "generate", ""); size_t at = 0; while (at < r.out.size()) { size_t e = r.out.find('\n', at); std::string s = r.out.substr(at, e - at); at = e + 1; bool odd = false; for (unsigned char c : s) odd |= c == '\\' || c < 32 || c > 126; if (!odd && !ref_accepts(w, s)) { H.fail("generate", r.cmd + ": prints " + show(s)); break; } } }
	// equality: every pattern equal; or a later one which doesn't include those before
	if (ps.size() == 2 && !cat) { bool eq = !compare(m[0], m[1], CMP_END).differ, sup = !compare(w, m[1], CMP_END).differ; static const char *const names[] = { "equal", "isequal", "areequal" }; r = run(cmd({"-q", names[k % 3]}, {})); if (eq) want(r, true, "equal", "they are equal"); else if (!sup) want(r, false, "equal", "they differ"); }
	// the same machines by way of files
	if (k % 4 == 2 && !cat) { std::vector<std::string> v; for (size_t i = 0; i < ps.size(); i++) { Nfa c = m[i]; for (auto &s : c.s) s.ids.clear(); v.push_back(put(fmt("f%zu", i).c_str(), fsm_write(c))); } std::vector<std::string> c{"-p", "-uf"}; c.insert(c.end(), v.begin(), v.end()); lang(run(Q(c)), w, CMP_END | CMP_IDS, "from-fsm"); }
	// syntax trees, and literals, as the library gives them
	if (ps.size() == 1 && !files) { struct fsm_options o; memset(&o, 0, sizeof o); o.anonymous_states = 1; o.consolidate_edges = 1; o.ambig = AMBIG_ERROR; o.comments = 1; o.io = FSM_IO_GETC; enum re_flags fl = (enum re_flags) ((anch ? RE_ANCHORED : 0) | (ic ? RE_ICASE : 0));
		static const struct { const char *n; enum ast_print_lang l; } al[] = { {"abnf", AST_PRINT_ABNF}, {"ast", AST_PRINT_DOT}, {"pcre", AST_PRINT_PCRE}, {"tree", AST_PRINT_TREE} };
		for (auto &l : al) { MemIn in{ps[0].t.data(), ps[0].t.size()}; struct re_err e; struct ast *t = re_parse(RE_PCRE, mem_getc, &in, fl, &e, nullptr); if (!t) break; std::string s = print(t, o, fl, l.l); ast_free(t); r = run(cmd({"-l", l.n}, {})); auto strip = [](const std::string &x) { std::string o; for (size_t i = 0; i < x.size(); i++) { if (x[i] == '0' && i + 1 < x.size() && x[i + 1] == 'x') { i++; while (i + 1 < x.size() && isxdigit((unsigned char) x[i + 1])) i++; o += "PTR"; } else o += x[i]; } return o; }; if (r.st || (l.l == AST_PRINT_DOT ? r.out.size() < s.size() / 2 : strip(r.out) != strip(s))) H.fail("ast", r.cmd + fmt(": exits %d, prints ", r.st) + r.out.substr(0, 200)); }
		{ MemIn in{ps[0].t.data(), ps[0].t.size()}; struct re_err e; enum re_literal_category c; char *s = nullptr; size_t n; int x = re_is_literal(RE_PCRE, mem_getc, &in, fl, &e, &c, &s, &n); r = run(cmd({"-t"}, {})); std::string o; if (x == 1) { if (c == RE_LITERAL_UNSATISFIABLE) o = "unsatisfiable\n"; else { o = "anchors: "; if (c & RE_LITERAL_ANCHOR_START) o += "^"; if (c & RE_LITERAL_ANCHOR_END) o += "$"; o += "\nliteral: "; for (size_t i = 0; i < n; i++) o += s[i] == '\n' ? std::string("\\n") : std::string(1, s[i]); o += "\n"; } } want(r, x == 1, "literal", ""); if (r.out != o) H.fail("literal", r.cmd + ": prints " + show(r.out) + ", want " + show(o)); if (x == 1 && c != RE_LITERAL_UNSATISFIABLE) free(s); } }
}
static void errors() {
	std::string a = put("a.fsm", "0 -> 1 \"a\";\nstart: 0;\nend: 1;\n"), bad = put("bad.fsm", "0 -> ;"), t = put("t", "a");
	struct E { std::vector<std::string> v; bool ok; std::string in; }; std::string A = "0 -> 1 \"a\";\nstart: 0;\nend: 1;\n";
	std::vector<E> es = { {F({"-t", "nonsense", a}), false}, {F({"-q", "nonsense", a}), false}, {F({"-pl", "nonsense", a}), false}, {F({"-k", "nonsense", "-p", a}), false}, {F({"-G", "0", a}), false}, {F({"-p", dir + "/absent"}), false}, {F({"-p", bad}), false}, {F({"-p"}), false, "0 -> ;"}, {F({"-p"}), true, A}, {F({"-p", "-"}), true, A}, {F({"-t", "union", "-p", a}), false}, {F({"-t", "intersect", "-p"}), false}, {F({"-t", "cat", a, dir + "/absent"}), false}, {F({"-t", "equal", a, bad}), false}, {F({"-t", "equal", "-p", a, a}), false}, {F({"-q", "dfa", "-t", "reverse", a}), false}, {F({"-d", "-q", "dfa", a}), false}, {F({"-Z"}), false}, {F({"-W", "3", a}), false}, {F({"-h"}), true}, {F({"-x", a, dir + "/absent"}), false}, {F({"-x", a, t}), true}, {F({"-x", a, t, t, t}), true}, {F({"-q", "requiredchars", "-S", "1", put("ab.fsm", "0 -> 1 \"a\"; 1 -> 2 \"b\"; 2 -> 3 \"c\"; 3 -> 4 \"d\"; start: 0; end: 4;")}), false}, {F({"-x", a, "-"}), true, "a"}, {F({"-x", a, "-"}), false, "b"},
		{Q({}), false}, {Q({"-h"}), true}, {Q({"-Z"}), false}, {Q({"-r", "nonsense", "a"}), false}, {Q({"-l", "nonsense", "a"}), false}, {Q({"-k", "nonsense", "-p", "a"}), false}, {Q({"-q", "nonsense", "a"}), false}, {Q({"-F", "q", "a"}), false}, {Q({"-G", "0", "a"}), false}, {Q({"-p", "-m", "a"}), false}, {Q({"-p", "-q", "equal", "a"}), false}, {Q({"-t", "-m", "a"}), false}, {Q({"-p", "-x", "a"}), false}, {Q({"-m", "-x", "a"}), false}, {Q({"-M", "-m", "a"}), false}, {Q({"-M", "-n", "-p", "a"}), false}, {Q({"-M", "-t", "a"}), false}, {Q({"-z", "-q", "equal", "a"}), false}, {Q({"-G", "3", "-m", "a"}), false}, {Q({"-G", "3", "-n", "-p", "a"}), false}, {Q({"-s", "-z", "a", "a"}), false}, {Q({"-t", "a", "b"}), false}, {Q({"-l", "pcre", "a", "b"}), false}, {Q({"-l", "tree", "a", "b"}), false}, {Q({"-y", dir + "/absent"}), false}, {Q({"-p", "-y", dir + "/absent"}), false}, {Q({"-pf", bad}), false}, {Q({"-pf", a}), true}, {Q({"-tf", a}), false}, {Q({"-x", "a", dir + "/absent"}), false}, {Q({"-x", "a", t}), true}, {Q({"-x", "b", t}), false}, {Q({"-x", "a", "--", t, t}), true}, {Q({"-r", "pcre", "a{2,1}"}), false}, {Q({"-r", "pcre", "(", "a"}), false}, {Q({"-p", "("}), false}, {Q({"-m", "[b-a]"}), false}, {Q({"-r", "pcre", "-l", "tree", "("}), false}, {Q({"-r", "pcre", "-t", "("}), false}, {Q({"a"}), true}, {Q({"-r", "pcre", "a*?", "a"}), false}, {Q({"-r", "pcre", "-p", "(?=a)"}), false} };
	for (auto &e : es) { if (H.stop()) break; if (!H.take()) continue; std::string cmd; for (auto &x : e.v) cmd += x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1) + " "; if (!H.begin([&] { return "command " + cmd; })) continue; H.nontrivial++; put("a.fsm", A); put("t", "a"); want(run(e.v, e.in), e.ok, "errors", e.ok ? "should succeed" : "should fail"); }
	// what the manual says of doing more than one thing
	if (H.take() && H.begin([] { return std::string("transformations in order"); })) { put("a.fsm", A + ""); Res r = run(F({"-p", "-t", "complement", "-t", "reverse", a})); Nfa x; x.start = x.add(); x.add(true); x.set(0, 1, BS("a")); lang(r, ref_reverse(neg(x)), CMP_END, "several-transformations"); }
	if (H.take() && H.begin([] { return std::string("queries anded"); })) { put("a.fsm", A); want(run(F({"-q", "hasepsilons", "-q", "isdfa", a})), false, "several-queries", "the first is false"); }
	for (auto &e : std::vector<std::pair<std::vector<std::string>, int>>{ {{"-r", "pcre", "(?=a)", "a"}, 2}, {{"-r", "pcre", "-p", "a*?"}, 2}, {{"-r", "pcre", "-l", "tree", "a\\b"}, 2}, {{"-r", "pcre", "-t", "a\\b"}, 2}, {{"-r", "pcre", "-p", "a("}, 1} }) if (H.take() && H.begin([&] { return "unsupported " + e.first[2] + e.first[3]; })) { Res r = run(Q(e.first)); if (r.st != e.second) H.fail("unsupported", r.cmd + fmt(": exits %d, want %d", r.st, e.second)); }
	for (auto &d : std::vector<std::pair<std::string, std::string>>{ {"like", "a%"}, {"literal", "a.b"}, {"glob", "a*"}, {"native", "a.b"}, {"pcre", "a.b"}, {"sql", "a%"} }) if (H.take() && H.begin([&] { return "dialect " + d.first; })) { bool any = d.first != "literal"; want(run(Q({"-r", d.first, d.second, "axb"})), any, "dialect", "axb"); want(run(Q({"-r", d.first, d.second, "a.b"})), true, "dialect", "a.b"); want(run(Q({"-r", d.first, d.second, "x"})), false, "dialect", "x"); if (d.first == "native") want(run(Q({d.second, "axb"})), true, "dialect", "the default"); }
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough; FSM = H.arg["fsm"]; RE = H.arg["re"]; if (FSM.empty() || RE.empty()) { fprintf(stderr, "--fsm= --re=\n"); return 2; }
	struct rlimit rl = { 20, 20 }; (void) rl; char b[] = "p35-XXXXXX"; if (!mkdtemp(b)) { perror(b); return 2; } dir = b;
	errors();
	enum_nfas(1, 2, 2, true, [&](const Nfa &a) { unary(a, "", 2); });
	enum_nfas(2, 2, 2, true, [&](const Nfa &a) { if (T || H.idx % 3 == 0) unary(a, "", 2); });
	enum_nfas(2, 3, 2, true, [&](const Nfa &a) { if (H.idx % (T ? 7 : 61) == 0) unary(a, "", 2); });
	enum_nfas(3, 3, 1, true, [&](const Nfa &a) { if (H.idx % (T ? 31 : 307) == 0) unary(a, "", 3); });
	enum_dfas(2, 2, [&](const Nfa &a) { if (T || H.idx % 3 == 0) unary(a, "", 3); });
	enum_dfas(3, 2, [&](const Nfa &a) { if (H.idx % (T ? 5 : 127) == 0) unary(a, "", 3); }, true);
	enum_families([&](const Nfa &a, const std::string &n) { unary(a, n, 2); }, T ? 40 : 11, false, 1);
	auto one = collect(1, 2, 2, true), two = collect(2, 2, 2, true); std::vector<Nfa> pool; for (auto &x : one) pool.push_back(x); for (size_t i = 0; i < two.size(); i += T ? 5 : 31) pool.push_back(two[i]);
	for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < pool.size(); j++) { if (!T && (i * 7 + j) % 3) continue; if (H.stop()) break; if (!H.take()) continue; binary(pool[i], pool[j], ""); }
	RxEnum e; e.atoms = { rx_set(BS("a"), "a"), rx_set(BS("b"), "b"), rx_set(BR('a', 'b'), "[ab]"), rx_anch(A_START, "^"), rx_anch(A_ENDNL, "$") }; e.reps = { {0, -1}, {0, 1}, {2, 2} }; std::vector<P> ps, small; Speller sp;
	auto bad = [](const R &r) { std::function<bool(const R &, bool)> f = [&](const R &x, bool in) -> bool { if (x->k == X_ANCH && in) return true; for (auto &c : x->c) if (f(c, in || x->k == X_REP)) return true; return false; }; return f(r, false); };
	for (int n = 1; n <= 3; n++) e.each(n, [&](const R &r) { if (!bad(r)) { P p{r, rx_text(r, sp)}; ps.push_back(p); if (n < 3) small.push_back(p); } return true; });
	for (auto &p : ps) for (int mode = 0; mode < 4; mode++) { if (mode == 1 || (!T && (H.idx + mode) % 3 == 0 && p.t.size() > 3)) continue; if (H.stop()) break; if (!H.take()) continue; rex({p}, mode); }
	for (size_t i = 0; i < small.size(); i++) for (size_t j = 0; j < small.size(); j++) for (int mode = 0; mode < 4; mode++) { if (!T && (i + j * 3 + mode) % 3) continue; if (H.stop()) break; if (!H.take()) continue; rex({small[i], small[j]}, mode); }
	for (size_t i = 0; i < small.size(); i++) for (size_t j = 0; j < small.size(); j++) for (size_t l = 0; l < ps.size(); l++) { if ((i * 5 + j * 3 + l) % (T ? 11 : 97)) continue; if (H.stop()) break; if (!H.take()) continue; rex({small[i], small[j], ps[l]}, 2); }
	for (const char *f : { "a.fsm", "b.fsm", "bad.fsm", "ab.fsm", "t", "p0", "p1", "p2", "f0", "f1", "f2" }) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str());
	return H.finish();
}
