// P18: the dot, JSON, IR (JSON and dot) and API output describe exactly the machine printed.
// LINK: -ldl -rdynamic
#include "gen.h"
#include "conf.h"
#include "textfmt.h"
#include <spawn.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <unistd.h>
extern char **environ;
static bool T; static std::string dir; static int seq;
#pragma GCC visibility push(default)
extern "C" __attribute__((used)) void *keep[] = { (void *) fsm_addstate, (void *) fsm_addedge_literal, (void *) fsm_addedge_any, (void *) fsm_addedge_epsilon, (void *) fsm_endid_set, (void *) fsm_isend };
#pragma GCC visibility pop
struct Pend { int64_t idx; std::function<std::string()> cur; Nfa a; std::string sym, src, opts; bool ids; }; static std::vector<Pend> pend; static size_t pbytes;
static std::string print(struct fsm *f, const struct fsm_options &o, const struct fsm_hooks *h, int lang, int &r) { char *p = nullptr; size_t n = 0; FILE *m = open_memstream(&p, &n); errno = 0; r = fsm_print(m, f, &o, h, (enum fsm_print_lang) lang); int e = errno; fclose(m); std::string s(p, n); free(p); errno = e; return s; }
typedef std::map<int, Bytes> Row; typedef std::vector<Row> Rows;
static Rows rows(const Nfa &a) { Rows r(a.n()); for (size_t i = 0; i < a.n(); i++) for (auto &e : a.s[i].e) if (e.first.any()) r[i][e.second] |= e.first; return r; }
static int num(const Js *j) { return j && j->k == Js::NUM ? (int) j->n : -1; }
static std::string showset(const Bytes &b) { return b.count() > 20 ? fmt("%zu bytes", b.count()) : show(b); }
// JSON
static std::string check_json(const Nfa &a, const std::string &s, const struct fsm_options &o, bool hook) {
	Js j; JsonReader R(s); if (!R.read(j)) return "not JSON: " + R.err; if (j.k != Js::OBJ) return "not an object"; if (num(j.get("statecount")) != (int) a.n()) return "number of states"; if (a.start >= 0 ? num(j.get("start")) != a.start : j.get("start") != nullptr) return "start state"; const Js *e = j.get("end"); if (!e || e->k != Js::ARR) return "no end states"; std::set<int> ends, want; for (auto &x : e->a) if (!ends.insert(num(&x)).second) return "an end state listed twice"; for (size_t i = 0; i < a.n(); i++) if (a.s[i].end) want.insert(i); if (ends != want) return "end states";
	if (hook) { const Js *l = j.get("endleaf"); if (!l || l->k != Js::ARR || l->a.size() != want.size()) return "endleaf"; }
	const Js *g = j.get("edges"); if (!g || g->k != Js::ARR) return "no edges"; Rows w = rows(a), got(a.n()); std::vector<std::set<int>> eps(a.n());
	for (auto &x : g->a) { H.transitions++; int u = num(x.get("src")), v = num(x.get("dst")); if (u < 0 || v < 0 || u >= (int) a.n() || v >= (int) a.n()) return fmt("edge %d -> %d", u, v); const Js *l = x.get("label"), *y = x.get("symbol");
		if ((!l && !y) || (l && l->k == Js::STR && l->s.size() == 1 && l->s[0] == 0x3b5)) { if (!eps[u].insert(v).second) return fmt("epsilon %d -> %d twice", u, v); continue; }
		if (y) { int c = y->k == Js::NUM ? num(y) : y->k == Js::STR && y->s.size() == 1 ? (int) y->s[0] : -1; if (c < 0 || c > 255) return fmt("symbol of edge %d -> %d", u, v); if (got[u][v][c]) return fmt("edge %d -> %d on byte %d twice", u, v, c); got[u][v].set(c); continue; }
		if (l->k != Js::STR || !json_lab(l->s, w[u].count(v) ? w[u][v] : Bytes(), true)) { std::string t; for (unsigned c : l->s) t += c > 32 && c < 127 ? std::string(1, c) : fmt("\\u%04x", c); return fmt("label of edge %d -> %d is %s, for ", u, v, t.c_str()) + (w[u].count(v) ? showset(w[u][v]) : "nothing"); } if (got[u].count(v)) return fmt("edge %d -> %d twice", u, v); got[u][v] = w[u][v]; }
	for (size_t i = 0; i < a.n(); i++) { if (got[i] != w[i]) return fmt("transitions of state %zu", i); if (eps[i] != std::set<int>(a.s[i].eps.begin(), a.s[i].eps.end())) return fmt("epsilons of state %zu", i); } (void) o; return "";
}
// dot
static std::string check_dot(const Nfa &a, const std::string &s, const struct fsm_options &o, bool hook) {
	std::vector<DotSt> st; DotReader R(s); if (!R.read(st, o.fragment)) return "not dot: " + R.err; std::string P = std::string(o.prefix ? o.prefix : "") + "S"; auto state = [&](const std::string &n) { if (n.compare(0, P.size(), P)) return -1; char *e; if (!isdigit((unsigned char) n.c_str()[P.size()])) return -1; long v = strtol(n.c_str() + P.size(), &e, 10); return *e || v >= (long) a.n() ? -1 : (int) v; };
	Rows w = rows(a), got(a.n()); std::vector<std::set<int>> eps(a.n()); std::vector<int> dbl(a.n()), seen(a.n()); int starts = 0;
	for (auto &x : st) { H.transitions++; if (x.assign || x.node[0] == "node" || x.node[0] == "edge") continue; if (x.node.size() > 2) return "a chain of edges"; std::map<std::string, std::string> at(x.at.begin(), x.at.end()); if (at.size() != x.at.size()) return "an attribute twice";
		if (x.node[0] == "start") { if (x.node.size() == 2) { starts++; if (a.start < 0 || state(x.node[1]) != a.start) return "start state is " + x.node[1]; } continue; }
		int u = state(x.node[0]); if (u < 0) return "state " + x.node[0];
		if (x.node.size() == 1) { seen[u]++; if (at.count("shape") && at["shape"] == "doublecircle") dbl[u]++; if (hook && a.s[u].end) continue; std::string l = at.count("label") ? at["label"] : "", t; std::string num = o.anonymous_states ? "" : fmt("%d", u), id; for (auto k : a.s[u].ids) id += fmt("%s#%llu", id.empty() ? "" : ",", (unsigned long long) k);
			if (a.s[u].end || !o.anonymous_states) { if (l.size() < 2 || (l[0] != '<' && l[0] != '"')) return fmt("label of state %d", u); t = l.substr(1, l.size() - 2); std::string wl = a.s[u].end ? num + (num.empty() || id.empty() ? "" : "<BR/>") + id : num; if (t != wl) return fmt("label of state %d is %s", u, t.c_str()); } continue; }
		int v = state(x.node[1]); if (v < 0) return "state " + x.node[1]; std::string l = at["label"]; if (l.size() < 3 || l[0] != '<') return fmt("label of edge %d -> %d", u, v); l = l.substr(1, l.size() - 2); if (l == "&#x3B5;") { if (!eps[u].insert(v).second) return fmt("epsilon %d -> %d twice", u, v); continue; }
		if (o.consolidate_edges) { if (!w[u].count(v) || !dot_lab(l, w[u][v], true)) return fmt("label of edge %d -> %d is %s, for ", u, v, l.c_str()) + (w[u].count(v) ? showset(w[u][v]) : "nothing"); if (got[u].count(v)) return fmt("edge %d -> %d twice", u, v); got[u][v] = w[u][v]; }
		else { int c; for (c = 0; c < 256; c++) if (w[u].count(v) && w[u][v][c] && !got[u][v][c] && dot_lab(l, B1(c), false)) break; if (c == 256) return fmt("edge %d -> %d on %s", u, v, l.c_str()); got[u][v].set(c); } }
	if (!o.fragment && starts != (a.start >= 0)) return "start edges"; for (size_t i = 0; i < a.n(); i++) { if (dbl[i] != (a.s[i].end ? 1 : 0)) return fmt("state %zu drawn as an end state %d times", i, dbl[i]); if (!o.anonymous_states && seen[i] != 1) return fmt("state %zu appears %d times", i, seen[i]); if (got[i] != w[i]) return fmt("transitions of state %zu", i); if (eps[i] != std::set<int>(a.s[i].eps.begin(), a.s[i].eps.end())) return fmt("epsilons of state %zu", i); } return "";
}
// IR JSON: each state's strategy, turned back into transitions
static std::string check_irjson(const Nfa &a, const std::string &s, bool hook) {
	Js j; JsonReader R(s); if (!R.read(j)) return "not JSON: " + R.err; const Js *S = j.get("states"); if (!S || S->k != Js::ARR || S->a.size() != a.n()) return "number of states"; if (a.n() && num(j.get("start")) != a.start) return "start state"; Rows w = rows(a);
	for (size_t i = 0; i < a.n(); i++) { const Js &x = S->a[i]; H.transitions++; const Js *e = x.get("end"); if (!e || e->k != Js::BOOL || e->b != a.s[i].end) return fmt("end of state %zu", i); const Js *d = x.get("end_id"); Ids ids; if (d) for (auto &y : d->a) if (y.k != Js::NUM || y.n < 0 || !ids.insert((uint64_t) y.n).second) return fmt("ids of state %zu", i); if (ids != a.s[i].ids) return fmt("ids of state %zu", i); if (hook && a.s[i].end && !x.get("endleaf")) return "endleaf";
		const Js *g = x.get("strategy"); std::string st = g ? g->str() : "?"; int to[256]; for (int &c : to) c = -2; int def = -1; std::string err; auto range = [&](const Js &r, int t) { const Js *lo = r.get("start"), *hi = r.get("end"); if (!lo || !hi || lo->s.size() != 1 || hi->s.size() != 1 || lo->s[0] > 255 || hi->s[0] > 255 || lo->s[0] > hi->s[0]) { err = "range"; return; } for (unsigned c = lo->s[0]; c <= hi->s[0]; c++) { if (to[c] != -2) err = "byte in two ranges"; to[c] = t; } };
		const Js *G = x.get("groups"); if (G) for (auto &y : G->a) { int t = num(y.get("to")); const Js *r = y.get("ranges"); if (t < 0 || t >= (int) a.n() || !r || r->a.empty()) { err = "group"; break; } for (auto &z : r->a) range(z, t); } const Js *E = x.get("error"); if (E) for (auto &z : E->a) range(z, -1);
		if (st == "same") def = num(x.get("to")); else if (st == "dominant" || st == "error") { def = num(x.get("mode")); if (def < 0) err = "mode"; } else if (st != "none" && st != "complete" && st != "partial") err = "strategy"; if (!err.empty()) return err + fmt(" in state %zu", i); if (def >= (int) a.n()) return fmt("target in state %zu", i); Row got; for (int c = 0; c < 256; c++) { if (st == "complete" && to[c] == -2) return fmt("state %zu isn't complete", i); int t = to[c] == -2 ? def : to[c]; if (t >= 0) got[t].set(c); } if (got != w[i]) return fmt("transitions of state %zu", i); const Js *x2 = x.get("example"); if (x2 && x2->k != Js::STR) return "example"; }
	return "";
}
// IR as dot: the rows of each state's table
static std::string check_ir(const Nfa &a, const std::string &s, bool hook) {
	std::vector<DotSt> st; DotReader R(s); if (!R.read(st, false)) return "not dot: " + R.err; Rows w = rows(a); auto state = [&](std::string n) { size_t c = n.find(':'); if (c != std::string::npos) n = n.substr(0, c); if (n.compare(0, 2, "cs")) return -1; char *e; long v = strtol(n.c_str() + 2, &e, 10); return *e || v >= (long) a.n() ? -1 : (int) v; }; int starts = 0; std::vector<int> dbl(a.n()), tab(a.n()); std::vector<std::set<int>> links(a.n());
	for (auto &x : st) { H.transitions++; if (x.assign || x.node[0] == "node") continue; if (x.node[0] == "start") { if (x.node.size() == 2) { starts++; if (state(x.node[1]) != a.start) return "start state"; } continue; } int u = state(x.node[0]); if (u < 0) return "state " + x.node[0]; if (x.node.size() == 2) { int v = state(x.node[1]); if (v < 0 || x.node.size() != 2) return "state " + x.node[1]; links[u].insert(v); continue; }
		std::map<std::string, std::string> at(x.at.begin(), x.at.end()); if (at.count("peripheries")) { dbl[u]++; continue; } std::string l = at["label"]; tab[u]++; size_t p = 0; Row got; bool mapped[256] = { false }; int def = -1; std::string kind; Ids ids; std::vector<std::string> pendlo, pendhi; bool leaf = false;
		// rows of cells
		while ((p = l.find("<TR>", p)) != std::string::npos) { size_t e = l.find("</TR>", p); if (e == std::string::npos) return "table"; std::string row = l.substr(p + 4, e - p - 4); p = e; std::vector<std::string> c; size_t q = 0; while (q < row.size()) { if (row.compare(q, 3, "<TD")) return "table row"; size_t b = row.find('>', q), f = row.find("</TD>", q); if (b == std::string::npos || f == std::string::npos || b > f) return "table cell"; c.push_back(row.substr(b + 1, f - b - 1)); q = f + 5; }
			for (auto &y : c) { std::vector<unsigned> o; if (!html_text(y, o)) return "cell " + y; } auto name = [&](const std::string &n) { if (n == "(self)") return u; if (n[0] != 'S') return -1; char *e; long v = strtol(n.c_str() + 1, &e, 10); return *e || v >= (long) a.n() ? -1 : (int) v; };
			if (kind.empty()) { if (c.size() != 2 || c[0] != fmt("S%d", u)) return fmt("heading of state %d", u); kind = c[1]; continue; } if (c.size() == 1) { leaf = true; continue; } if (c.size() == 2 && c[0] == "example") continue; if (c.size() == 2 && c[0] == "end id") { const char *z = c[1].c_str(); while (*z) { if (*z == ' ') z++; if (*z != '#') return "ids"; char *e; ids.insert(strtoull(z + 1, &e, 10)); z = e; } continue; } if (c.size() == 2 && (c[0] == "to" || c[0] == "mode") && def < 0 && pendlo.empty() && (kind == "SAME" || kind == "DOMINANT" || kind == "ERROR")) { def = name(c[1]); if (def < 0) return "target " + c[1]; continue; }
			if (c.size() != 2 && c.size() != 3) return fmt("row of %zu cells", c.size()); auto byte = [&](const std::string &y) { for (int b = 0; b < 256; b++) if (dot_lab(y, B1(b), false)) return b; return -1; }; int lo = byte(c[0]), hi = c.size() == 3 ? byte(c[1]) : lo; if (lo < 0 || hi < lo) return "range " + c[0]; Bytes B = BR(lo, hi); for (int b = lo; b <= hi; b++) { if (mapped[b]) return "byte in two ranges"; mapped[b] = true; } static Bytes acc; if (pendlo.empty()) acc.reset(); acc |= B; pendlo.push_back(c[0]); if (c.back() == "&#x21B4;") continue; if (c.back() != "(error)") { int t = name(c.back()); if (t < 0) return "target " + c.back(); got[t] |= acc; } pendlo.clear(); }
		if (!pendlo.empty()) return "unfinished group"; for (int b = 0; b < 256; b++) if (!mapped[b] && def >= 0) got[def].set(b); if (got != w[u]) return fmt("transitions of state %d", u); if (ids != a.s[u].ids) return fmt("ids of state %d", u); if (hook && a.s[u].end && !leaf) return "hook's text"; }
	if (a.n() && starts != 1) return "start edges"; for (size_t i = 0; i < a.n(); i++) { if (dbl[i] != (a.s[i].end ? 1 : 0)) return fmt("state %zu drawn as an end state %d times", i, dbl[i]); if (tab[i] != 1) return fmt("state %zu appears %d times", i, tab[i]); std::set<int> want; for (auto &y : w[i]) if (y.first != (int) i) want.insert(y.first); if (links[i] != want) return fmt("links from state %zu", i); } return "";
}
// API calls
static int spawn(const std::vector<std::string> &av, std::string *err) { static int fe = -1; if (fe < 0) fe = memfd_create("e", MFD_CLOEXEC); if (ftruncate(fe, 0)) abort(); lseek(fe, 0, SEEK_SET); std::vector<char *> a; for (auto &s : av) a.push_back((char *) s.c_str()); a.push_back(nullptr); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fe, 2); pid_t p; if (posix_spawnp(&p, a[0], &fa, nullptr, a.data(), environ)) { perror(a[0]); exit(2); } posix_spawn_file_actions_destroy(&fa); int st; while (waitpid(p, &st, 0) < 0) ; H.tick(); off_t n = lseek(fe, 0, SEEK_END); err->resize(n); if (n && pread(fe, &(*err)[0], n, 0) != n) abort(); return st; }
typedef int (*ApiF)(struct fsm *, fsm_state_t *, fsm_state_t *);
static void api_exec(Pend &p, void *h) { ApiF f = (ApiF) dlsym(h, p.sym.c_str()); if (!f) { H.fail("api", "no function " + p.sym); return; } for (int v = 0; v < 2; v++) { struct fsm *g = fsm_new(nullptr); fsm_state_t x, y; if (!g) abort(); if (v) { fsm_addstate(g, &y); fsm_addstate(g, &x); fsm_addstate(g, &x); } else { fsm_addstate(g, &x); fsm_addstate(g, &y); } fsm_setstart(g, x); if (v) fsm_setend(g, y, 1); int r = f(g, &x, &y); if (r != 1) { H.fail("api", fmt("the calls returned %d", r)); fsm_free(g); return; } if (!v) fsm_setend(g, y, 1); Nfa got = extract(g); fsm_free(g); Nfa want = p.a; Diff d = compare(want, got, CMP_END); if (d.differ) { H.fail("api", p.opts + ": the machine rebuilt differs: " + d.why + " on " + show(d.witness)); return; }
		if (v && p.ids) { Ids all; for (auto &s : p.a.s) if (s.end) all = s.ids; if (got.s[y].ids != all) { H.fail("api-ids", p.opts + ": the end state's ids were not rebuilt"); return; } } H.traces++; } }
static void at(Pend &p, const std::function<void()> &f) { int64_t oi = H.idx; auto oc = H.cur; H.idx = p.idx; H.sh->idx = p.idx; H.cur = p.cur; f(); H.idx = oi; H.cur = oc; H.sh->idx = oi; }
static void *api_cc(const std::vector<Pend *> &ps, std::string *err) { std::string b = dir + fmt("/b%d", seq++); FILE *f = fopen((b + ".c").c_str(), "w"); if (!f) abort(); for (auto p : ps) fputs(p->src.c_str(), f); fclose(f); H.counters["compilations"]++; const char *R = getenv("VERIF_REPO"); int r = spawn({ "gcc", "-O0", "-fPIC", "-shared", "-std=c99", "-w", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", std::string("-I") + (R ? R : "/repo") + "/include", "-DLF_HEADER=<stddef.h>", "-o", b + ".so", b + ".c" }, err); unlink((b + ".c").c_str()); if (r) { unlink((b + ".so").c_str()); return nullptr; } void *h = dlopen(("./" + b + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) *err = dlerror(); unlink((b + ".so").c_str()); return h; }
static void flush() { if (pend.empty()) return; std::vector<Pend *> v; for (auto &p : pend) v.push_back(&p); std::string err; void *h = api_cc(v, &err); if (h) { for (auto &p : pend) at(p, [&] { api_exec(p, h); }); dlclose(h); } else { int bad = 0; for (auto &p : pend) if (bad < 3) at(p, [&] { std::string e; void *h = api_cc({ &p }, &e); if (h) { api_exec(p, h); dlclose(h); } else { bad++; H.fail("api-compile", p.opts + ": " + e.substr(0, 400)); } }); } pend.clear(); pbytes = 0; }

static int hk_json(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *) { fprintf(f, "\"%zu\"", m->end_id_count); return 0; }
static int hk_dot(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *) { fprintf(f, "label = <ids %zu>", m->end_id_count); return 0; }
static int hk_row(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *m, void *, void *) { fprintf(f, "ids %zu", m->end_id_count); return 0; }
static void run(Nfa a, const std::string &name, int opts) { // opts: 0 a rotating choice, 1 all
	int64_t ix = H.idx; { bool any = false; for (auto &s : a.s) if (!s.ids.empty()) any = true; if (!any) assign_ids(a, ix % 6); } for (auto &s : a.s) if (!s.end) s.ids.clear(); auto d = [=] { return name.empty() ? a.str() : name; }; if (!H.begin(d)) return; struct fsm *f = build(a); Nfa b = extract(f); b.start = a.start; std::string before = b.str(); H.states += a.n(); if (a.start >= 0 && !ref_empty(a)) H.nontrivial++; bool dfa = is_dfa_shape(a) && a.start >= 0; static const struct fsm_options zero = {}; bool ok = true;
	for (int k = 0; k < 64 && ok; k++) { if (opts ? 0 : k != ix % 64 && k != (ix * 5 + 3) % 64 && k != (ix / 64 + 31) % 64) continue; struct fsm_options o = zero; o.anonymous_states = k & 1; o.consolidate_edges = k >> 1 & 1; o.always_hex = k >> 2 & 1; o.fragment = k >> 3 & 1; o.comments = k >> 4 & 1; bool hook = k >> 5 & 1; std::string prefix = k % 3 == 1 ? "q_" : ""; if (k % 3) o.prefix = prefix.c_str(); o.group_edges = k % 5 == 0; o.case_ranges = k % 7 == 0; o.ambig = k % 11 == 0 ? AMBIG_MULTIPLE : k % 11 == 1 ? AMBIG_EARLIEST : AMBIG_NONE;
		std::string on = fmt("options%s%s%s%s%s%s%s", k & 1 ? " anonymous" : "", k & 2 ? " consolidate" : "", k & 4 ? " hex" : "", k & 8 ? " fragment" : "", k & 16 ? " comments" : "", hook ? " hook" : "", o.prefix ? " prefix" : ""); struct fsm_hooks hk; memset(&hk, 0, sizeof hk); int r; std::string s, why;
		auto say = [&](const char *key, const std::string &w) { H.fail(key, std::string(key) + ", " + on + ": " + w); ok = false; };
		hk.accept = hook ? hk_json : nullptr; s = print(f, o, &hk, FSM_PRINT_JSON, r); if (r) { say("json", fmt("fsm_print returned %d", r)); break; } if (!(why = check_json(b, s, o, hook)).empty()) { say("json", why); break; }
		hk.accept = hook ? hk_dot : nullptr; s = print(f, o, &hk, FSM_PRINT_DOT, r); if (r) { say("dot", fmt("fsm_print returned %d", r)); break; } if (!(why = check_dot(b, s, o, hook)).empty()) { say("dot", why); break; }
		for (int lang : { FSM_PRINT_IRJSON, FSM_PRINT_IR }) { hk.accept = hook ? lang == FSM_PRINT_IR ? hk_row : hk_json : nullptr; s = print(f, o, &hk, lang, r); const char *key = lang == FSM_PRINT_IR ? "ir" : "irjson"; if (!dfa) { if (a.start >= 0 && (r != -1 || errno != EINVAL || !s.empty())) { say(key, fmt("a machine that isn't a DFA: fsm_print returned %d", r)); break; } continue; } if (r) { say(key, fmt("fsm_print returned %d", r)); break; } if (!(why = lang == FSM_PRINT_IR ? check_ir(b, s, hook) : check_irjson(b, s, hook)).empty()) { say(key, why); break; } } if (!ok) break;
		// API
		int nend = 0; for (auto &x : a.s) nend += x.end; std::string pf = fmt("a%lld_%d_", (long long) ix, k); o.prefix = pf.c_str(); s = print(f, o, nullptr, FSM_PRINT_API, r); if (!nend || a.start < 0) { if (r != -1 || errno != EINVAL || !s.empty()) say("api", fmt("a machine with no %s: fsm_print returned %d, errno %d", nend ? "start" : "end", r, errno)); continue; } if (r) { say("api", fmt("fsm_print returned %d", r)); break; } if (a.n() > 400 || s.size() > 300000) { H.counters["API calls not compiled: too long"]++; continue; }
		Pend p; p.idx = ix; p.cur = d; p.a = a; p.opts = on; p.sym = pf + "fsm"; p.ids = nend == 1; p.src = o.fragment ? "#include <assert.h>\n#include <stddef.h>\n#include <fsm/fsm.h>\n#include <fsm/pred.h>\nint " + p.sym + "(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y)\n{\n" + s + "\treturn 1;\n}\n" : s; pbytes += p.src.size(); pend.push_back(p); }
	Nfa c = extract(f); c.start = a.start; if (c.str() != before) H.fail("changed", "printing changed the machine"); fsm_free(f); if (pbytes > (1 << 20) || H.only >= 0) flush();
}
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough; char tn[] = "ga-XXXXXX"; if (!mkdtemp(tn)) { perror("mkdtemp"); return 2; } dir = tn; setenv("TMPDIR", tn, 1);
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { run(a, "", 1); }); enum_nfas(2, 2, 2, true, [&](const Nfa &a) { run(a, "", T); }); enum_nfas(2, 3, 2, true, [&](const Nfa &a) { if (!T && H.idx % 9) return; run(a, "", 0); }); enum_nfas(3, T ? 3 : 2, 2, true, [&](const Nfa &a) { if (!T && H.idx % 5) return; run(a, "", 0); }); enum_dfas(2, 2, [&](const Nfa &a) { if (!T && H.idx % 3) return; run(a, "", 0); }); enum_dfas(3, 2, [&](const Nfa &a) { if (!T && H.idx % 23) return; run(a, "", 0); });
	if (H.take()) run(Nfa(), "no states", 1); { Nfa a; a.add(true); a.add(false); a.set(0, 1, B1('a')); if (H.take()) run(a, "no start state", 1); }
	// single transitions: every byte, and every range
	for (int c = 0; c < 256; c++) for (int v = 0; v < 2; v++) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.add(v); a.add(true); a.start = v; a.set(0, 1, B1(c)); if (v) a.set(1, 0, B1(c)); run(a, fmt("byte %d, %d", c, v), c % 7 == 0); }
	static const int ed[] = { 0, 1, 7, 13, 31, 32, 33, 34, 38, 44, 45, 46, 47, 48, 49, 56, 57, 58, 60, 62, 64, 65, 66, 90, 91, 92, 93, 94, 95, 96, 97, 122, 123, 126, 127, 128, 129, 191, 192, 250, 251, 252, 253, 254, 255 }; int ne = sizeof ed / sizeof *ed;
	for (int i = 0; i < ne; i++) for (int j = i; j < ne; j++) for (int v = 0; v < 4; v++) { if (H.stop()) break; if (!H.take()) continue; if (!T && v && H.idx % 5) continue; Nfa a; a.add(false); a.add(true); a.add(v > 1); a.start = 0; Bytes B = BR(ed[i], ed[j]), C; if (v == 1) B = ~B; if (v == 2) C = ~B; if (v == 3) { for (int c = ed[i]; c <= ed[j]; c += 2) C.set(c); B &= ~C; } if (B.any()) a.set(0, 1, B); if (C.any()) a.set(0, v == 3 ? 0 : 2, C); run(a, fmt("bytes %d to %d, %d", ed[i], ed[j], v), 0); }
	// holes in sets, and pairs of bytes
	for (int i = 0; i < ne; i++) for (int j = i + 1; j < ne; j++) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.add(true); a.add(true); a.start = 0; Bytes B; B.set(ed[i]); B.set(ed[j]); a.set(0, 1, B); a.set(1, 0, ~B); run(a, fmt("bytes %d and %d", ed[i], ed[j]), 0); }
	{ std::vector<int> cut = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256 }; for (size_t i = 0; i < cut.size(); i++) for (size_t j = i; j < cut.size(); j++) for (size_t k = j; k < cut.size(); k++) for (int x = 0; x < 256; x++) { if (H.stop()) break; if (!H.take()) continue; if (H.idx % (T ? 11 : 151)) continue; int to[4] = { x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6 & 3 }; Nfa a; a.add(x % 5 == 0); a.add(false); a.add(true); a.start = 0; Bytes m[3]; for (int c = 0; c < 256; c++) { int p = (c >= cut[i]) + (c >= cut[j]) + (c >= cut[k]); if (to[p] < 3) m[to[p]].set(c); } for (int t = 0; t < 3; t++) if (m[t].any()) a.set(0, t, m[t]); run(a, fmt("split %d %d %d, %d", cut[i], cut[j], cut[k], x), 0); } }
	for (int n = 1; n <= 256; n++) for (int v = 0; v < 4; v++) { if (!T && n > 5 && n < 254 && n % 64 > 1) continue; if (H.stop()) break; if (!H.take()) continue; Nfa a; for (int i = 0; i < n + 1; i++) a.add(i % 2 == 0); a.start = v & 1 ? n : 0; for (int c = 0; c < 256; c++) { int to = v < 2 ? c % n : c * n / 256; if (v == 3 && c % 7 == 0) continue; a.set(a.start, (to + (v & 1)) % (n + 1), B1(c)); } run(a, fmt("%d targets, %d", n, v), 0); }
	for (int k = 0; k < 40; k++) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.add(true); a.start = 0; a.add(k & 1); a.set(0, 1, B1('a')); a.set(1, 1, B1('b')); for (int i = 0; i <= k; i++) a.s[0].ids.insert(i * 37 % 101 + (i == 7 ? 4000000000u : 0)); run(a, fmt("%d ids", k + 1), 1); }
	enum_families([&](const Nfa &a, const std::string &n) { run(a, n, 0); if (!is_dfa_shape(a)) { } }, T ? 200 : 24, false, 1);
	flush(); rmdir(dir.c_str()); return H.finish();
}
