// P13: predicates, counters and walkers give the answers which the set of transitions added implies.
#include "gen.h"
#include <fsm/walk.h>
#include <fsm/pred.h>
struct Model { int n = 0, start = -1; std::vector<char> end; std::map<std::pair<int, int>, Bytes> e; std::set<std::pair<int, int>> eps; };
static std::vector<char> pmask; static size_t pcalls;
static int pred_mask(const struct fsm *, fsm_state_t s) { pcalls++; return s < pmask.size() && pmask[s] ? 5 : 0; }
struct Walk { std::map<std::pair<int, int>, Bytes> e; std::set<std::pair<int, int>> eps; std::vector<int> states; bool dup = false; int left = -1, calls = 0; };
static int w_lit(const struct fsm *, fsm_state_t a, fsm_state_t b, char c, void *o) { Walk &w = *(Walk *) o; w.calls++; auto &m = w.e[{(int) a, (int) b}]; if (m[(unsigned char) c]) w.dup = true; m.set((unsigned char) c); return w.left < 0 || w.calls < w.left; }
static int w_eps(const struct fsm *, fsm_state_t a, fsm_state_t b, void *o) { Walk &w = *(Walk *) o; w.calls++; if (!w.eps.insert({(int) a, (int) b}).second) w.dup = true; return w.left < 0 || w.calls < w.left; }
static int w_state(const struct fsm *, fsm_state_t a, void *o) { Walk &w = *(Walk *) o; w.calls++; w.states.push_back(a); return w.left < 0 || w.calls < w.left; }
static bool judge(struct fsm *f, const Model &m, bool deep) {
	auto bad = [&](const char *k, const std::string &s) { H.fail(k, s); return false; };
	int n = m.n; H.traces++; H.tick(); if ((int) fsm_countstates(f) != n) return bad("countstates", fmt("%u, want %d", fsm_countstates(f), n));
	size_t ne = 0; for (auto &x : m.e) ne += x.second.count(); if (fsm_countedges(f) != ne) return bad("countedges", fmt("%u, want %zu", fsm_countedges(f), ne));
	fsm_state_t st = 77777; int r = fsm_getstart(f, &st); if (!!r != (m.start >= 0) || (r && (int) st != m.start)) return bad("getstart", fmt("%d, state %u, want %d", r, st, m.start));
	std::vector<Bytes> out(n); std::vector<char> dup(n, 0), haseps(n, 0), in(n, 0), lit(n, 0); std::vector<std::map<int, unsigned>> freq(n); std::vector<std::set<int>> succ(n);
	for (auto &x : m.e) { int a = x.first.first, b = x.first.second; if (!x.second.any()) continue; if ((out[a] & x.second).any()) dup[a] = 1; out[a] |= x.second; in[b] = 1; lit[a] = 1; freq[a][b] = x.second.count(); succ[a].insert(b); H.transitions++; }
	for (auto &x : m.eps) { haseps[x.first] = 1; in[x.second] = 1; succ[x.first].insert(x.second); }
	struct P { const char *name; int (*f)(const struct fsm *, fsm_state_t); std::vector<char> want; }; std::vector<P> ps;
	auto V = [&](std::function<int(int)> g) { std::vector<char> v; for (int i = 0; i < n; i++) v.push_back(!!g(i)); return v; };
	ps.push_back({"isend", fsm_isend, V([&](int i) { return m.end[i]; })}); ps.push_back({"isany", fsm_isany, V([](int) { return 1; })}); ps.push_back({"iscomplete", fsm_iscomplete, V([&](int i) { return out[i].all(); })});
	ps.push_back({"isdfa", fsm_isdfa, V([&](int i) { return m.start >= 0 && !haseps[i] && !dup[i]; })}); ps.push_back({"hasincoming", fsm_hasincoming, V([&](int i) { return in[i]; })}); ps.push_back({"hasoutgoing", fsm_hasoutgoing, V([&](int i) { return haseps[i] || lit[i]; })});
	ps.push_back({"hasepsilons", fsm_hasepsilons, V([&](int i) { return haseps[i]; })}); ps.push_back({"epsilonsonly", fsm_epsilonsonly, V([&](int i) { return haseps[i] && !lit[i]; })});
	for (int i = 0; i < n; i++) for (auto &p : ps) { int x = p.f(f, i); H.states++; if ((x != 0) != (bool) p.want[i]) return bad(p.name, fmt("state %d: %d", i, x)); }
	for (int i = 0; i < n; i++) { // nondeterminism within the epsilon closure
		std::vector<int> q{i}; std::set<int> c{i}; for (size_t k = 0; k < q.size(); k++) for (auto it = m.eps.lower_bound({q[k], 0}); it != m.eps.end() && it->first == q[k]; ++it) if (c.insert(it->second).second) q.push_back(it->second);
		Bytes once, twice, shared; std::map<int, Bytes> to; for (int s : c) for (auto it = m.e.lower_bound({s, 0}); it != m.e.end() && it->first.first == s; ++it) { shared |= once & it->second; for (auto &o : to) if (o.first != it->first.second) twice |= o.second & it->second; to[it->first.second] |= it->second; once |= it->second; }
		int x = fsm_hasnondeterminism(f, i); if (twice.any() ? x != 1 : !shared.any() ? x != 0 : x < 0) return bad("hasnondeterminism", fmt("state %d: %d", i, x));
		unsigned best = 1; for (auto &y : freq[i]) best = std::max(best, y.second); unsigned fr = 4242; fsm_state_t md = fsm_findmode(f, i, &fr); if (best == 1 ? md != (fsm_state_t) -1 || fr != 4242 : fr != best || !freq[i].count(md) || freq[i][md] != best) return bad("findmode", fmt("state %d: mode %d frequency %u, want frequency %u", i, (int) md, fr, best)); if (fsm_findmode(f, i, nullptr) != md) return bad("findmode-null", "differs without a frequency");
	}
	for (auto &p : ps) { unsigned c = 0; for (char x : p.want) c += x; if (fsm_count(f, p.f) != c) return bad("count", p.name); if (!!fsm_has(f, p.f) != (c > 0)) return bad("has", p.name); if (!!fsm_all(f, p.f) != ((int) c == n)) return bad("all", p.name); }
	// walkers: everything once; stopping after k calls
	{ Walk w; if (fsm_walk_edges(f, &w, w_lit, w_eps) != 1) return bad("walk-edges", "failed"); std::map<std::pair<int, int>, Bytes> want; for (auto &x : m.e) if (x.second.any()) want.insert(x); if (w.dup) return bad("walk-edges", "an edge was seen twice"); if (w.e != want || w.eps != m.eps) return bad("walk-edges", "wrong edges");
	  int total = w.calls; for (int k = 1; k <= total && deep; k += 1 + total / 9) { Walk x; x.left = k; if (fsm_walk_edges(f, &x, w_lit, w_eps) != 0 || x.calls != k) return bad("walk-stop", fmt("%d calls after stopping at %d", x.calls, k)); } }
	{ Walk w; if (fsm_walk_states(f, &w, w_state) != 1) return bad("walk-states", "failed"); for (int i = 0; i < n; i++) if ((int) w.states.size() != n || w.states[i] != i) return bad("walk-states", "wrong states"); for (int k = 1; k <= n && deep; k += 1 + n / 9) { Walk x; x.left = k; if (fsm_walk_states(f, &x, w_state) != 0 || x.calls != k) return bad("walk-states-stop", fmt("%d calls after stopping at %d", x.calls, k)); } }
	if (!deep) return true;
	for (int s = 0; s < n; s += 1 + n / 8) { std::vector<int> q{s}; std::set<int> c{s}; for (size_t k = 0; k < q.size(); k++) for (int t : succ[q[k]]) if (c.insert(t).second) q.push_back(t);
		for (int mask = 0; mask < (n <= 4 ? 1 << n : 6); mask++) { pmask.assign(n, 0); for (int i = 0; i < n; i++) pmask[i] = n <= 4 ? mask >> i & 1 : mask == 0 ? 0 : mask == 1 ? 1 : mask == 2 ? c.count(i) : mask == 3 ? !c.count(i) : mask == 4 ? i == q.back() : i != q.back();
			bool any = false, all = true; for (int i : c) { any |= pmask[i]; all &= pmask[i]; } pcalls = 0; int x = fsm_reachableany(f, s, pred_mask); size_t c1 = pcalls; pcalls = 0; int y = fsm_reachableall(f, s, pred_mask); if (x != any) return bad("reachableany", fmt("from %d: %d", s, x)); if (y != all) return bad("reachableall", fmt("from %d: %d", s, y)); if (c1 > c.size() || pcalls > c.size()) return bad("reachable-calls", "a state was asked about twice"); } }
	return true;
}
static Model model(const Nfa &a) { Model m; m.n = a.n(); m.start = a.start; m.end.resize(m.n); for (int i = 0; i < m.n; i++) { m.end[i] = a.s[i].end; for (auto &x : a.s[i].e) m.e[{i, x.second}] |= x.first; for (int t : a.s[i].eps) m.eps.insert({i, t}); } return m; }
struct Op { int k, a, b, c; };
static void apply(struct fsm *f, Model &m, const Op &o) {
	switch (o.k) {
	case 0: if (!fsm_addedge_literal(f, o.a, o.b, (char) o.c)) H.fail("add", "failed"); m.e[{o.a, o.b}].set(o.c); break;
	case 1: if (!fsm_addedge_any(f, o.a, o.b)) H.fail("any", "failed"); m.e[{o.a, o.b}].set(); break;
	case 2: if (!fsm_addedge_epsilon(f, o.a, o.b)) H.fail("epsilon", "failed"); m.eps.insert({o.a, o.b}); break;
	case 3: fsm_setend(f, o.a, o.b); m.end[o.a] = o.b != 0; break;
	case 4: fsm_setstart(f, o.a); m.start = o.a; break;
	case 5: { fsm_state_t s; if (!fsm_addstate(f, &s)) H.fail("addstate", "failed"); m.n++; m.end.push_back(0); break; }
	}
}
static std::vector<Op> ops_for(int n, const std::vector<int> &sy) { std::vector<Op> v; for (int a = 0; a < n; a++) { for (int b = 0; b < n; b++) { for (int c : sy) v.push_back({0, a, b, c}); v.push_back({1, a, b, 0}); v.push_back({2, a, b, 0}); } v.push_back({3, a, 1, 0}); v.push_back({3, a, 0, 0}); v.push_back({4, a, 0, 0}); } v.push_back({3, 0, 2, 0}); v.push_back({5, 0, 0, 0}); return v; }
static void seqs(int n, const std::vector<int> &sy, int depth) {
	auto ops = ops_for(n, sy);
	for (size_t i = 0; i < ops.size(); i++) for (size_t j = 0; j < ops.size(); j++) { if (H.stop()) return; if (!H.take()) continue;
		if (!H.begin([&] { return fmt("calls on %d states beginning %d(%d,%d,%d) %d(%d,%d,%d)", n, ops[i].k, ops[i].a, ops[i].b, ops[i].c, ops[j].k, ops[j].a, ops[j].b, ops[j].c); })) continue; H.nontrivial++;
		std::vector<int> seq{(int) i, (int) j}; bool ok = true;
		std::function<void()> rec = [&]() { if (!ok) return; struct fsm *f = fsm_new(nullptr); if (n) fsm_addstate_bulk(f, n); Model m; m.n = n; m.end.resize(n); for (int k : seq) apply(f, m, ops[k]); if (!judge(f, m, (int) seq.size() <= 3)) { std::string s; for (int k : seq) s += fmt(" %d(%d,%d,%d)", ops[k].k, ops[k].a, ops[k].b, ops[k].c); H.fail("sequence", "after" + s); ok = false; } fsm_free(f); if ((int) seq.size() >= depth) return; for (size_t k = 0; k < ops.size() && ok; k++) { seq.push_back(k); rec(); seq.pop_back(); } };
		rec(); }
}
static void built(const Nfa &a, const std::string &name) { if (!H.begin([&] { return name.empty() ? a.str() : name; })) return; H.nontrivial++; struct fsm *f = build(a, nullptr, H.idx % 3 == 0); judge(f, model(a), true); judge(f, model(a), true); fsm_free(f); }
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	seqs(1, { 'a', 0, 63, 64, 255 }, T ? 6 : 5); seqs(2, { 'a', 127, 128 }, T ? 5 : 4); seqs(3, { 191, 192 }, 3);
	enum_nfas(1, 4, 2, true, [&](const Nfa &a) { built(a, ""); }); enum_nfas(2, T ? 6 : 5, 2, true, [&](const Nfa &a) { built(a, ""); }); enum_nfas(3, T ? 4 : 3, 2, true, [&](const Nfa &a) { built(a, ""); }); enum_nfas(4, T ? 4 : 2, 1, true, [&](const Nfa &a) { built(a, ""); });
	enum_families([&](const Nfa &a, const std::string &n) { built(a, n); }, T ? 400 : 300, false, 2);
	for (int z = 0; z < 2; z++) if (H.take() && H.begin([] { return std::string("no states"); })) { Model m; struct fsm *f = z ? fsm_new_statealloc(nullptr, 1) : fsm_new(nullptr); judge(f, m, true); fsm_free(f); }
	return H.finish();
}
