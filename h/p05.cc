// P05: structural edits keep every other state's behaviour. Explores sequences of edits on small machines, with a
// model machine beside the real one; after each edit the real graph must be isomorphic to the model's.
#include "gen.h"
extern "C" {
#include <fsm/subgraph.h>
}
extern "C" struct fsm *fsm_mergeab(struct fsm *a, struct fsm *b, fsm_state_t *base_b);

static bool same_state(const Nfa &a, int i, const Nfa &b, int j) {
	auto &x = a.s[i], &y = b.s[j];
	return x.end == y.end && (!x.end || x.ids == y.ids) && x.eager == y.eager && x.eps.size() == y.eps.size();
}
static void canon(Nfa &a) {
	for (auto &s : a.s) {
		std::map<int, Bytes> m; for (auto &e : s.e) if (e.first.any()) m[e.second] |= e.first;
		s.e.clear(); for (auto &x : m) s.e.push_back({x.second, x.first});
		std::sort(s.eps.begin(), s.eps.end()); s.eps.erase(std::unique(s.eps.begin(), s.eps.end()), s.eps.end());
	}
}
// find p with b = a renumbered by p; both canonical
static bool iso(const Nfa &a, const Nfa &b, std::vector<int> &p) {
	int n = a.n(); if ((int) b.n() != n) return false;
	if ((a.start < 0) != (b.start < 0)) return false;
	p.assign(n, -1); std::vector<char> used(n, 0);
	std::vector<std::map<int, Bytes>> ea(n), eb(n); std::vector<std::set<int>> pa(n), pb(n);
	for (int i = 0; i < n; i++) { for (auto &e : a.s[i].e) ea[i][e.second] |= e.first; for (auto &e : b.s[i].e) eb[i][e.second] |= e.first; pa[i].insert(a.s[i].eps.begin(), a.s[i].eps.end()); pb[i].insert(b.s[i].eps.begin(), b.s[i].eps.end()); }
	auto edge = [](const std::map<int, Bytes> &m, int t) { auto it = m.find(t); return it == m.end() ? Bytes() : it->second; };
	std::function<bool(int)> rec = [&](int i) {
		if (i == n) return true;
		for (int jj = 0; jj < n; jj++) {
			int j = (i + jj) % n; // the identity first
			if (used[j] || !same_state(a, i, b, j) || (a.start == i) != (b.start == j) || ea[i].size() != eb[j].size()) continue;
			p[i] = j; bool ok = true;
			for (int k = 0; k <= i && ok; k++) ok = edge(ea[i], k) == edge(eb[j], p[k]) && edge(ea[k], i) == edge(eb[p[k]], j) && pa[i].count(k) == pb[j].count(p[k]) && pa[k].count(i) == pb[p[k]].count(j);
			if (ok) { used[j] = 1; if (rec(i + 1)) return true; used[j] = 0; }
		}
		p[i] = -1; return false;
	};
	return rec(0);
}
static Nfa renumber(const Nfa &a, const std::vector<int> &p) {
	Nfa b; b.s.resize(a.n()); for (size_t i = 0; i < a.n(); i++) { auto st = a.s[i]; for (auto &e : st.e) e.second = p[e.second]; for (auto &t : st.eps) t = p[t]; b.s[p[i]] = st; }
	b.start = a.start < 0 ? -1 : p[a.start]; return b;
}
static Nfa keep(const Nfa &a, const std::vector<char> &k) {
	std::vector<int> m(a.n(), -1); Nfa o; for (size_t i = 0; i < a.n(); i++) if (k[i]) { m[i] = o.n(); o.s.push_back(a.s[i]); }
	for (auto &s : o.s) { std::vector<std::pair<Bytes, int>> e; for (auto &x : s.e) if (m[x.second] >= 0) e.push_back({x.first, m[x.second]}); s.e = e; std::vector<int> q; for (int t : s.eps) if (m[t] >= 0) q.push_back(m[t]); s.eps = q; }
	o.start = a.start < 0 ? -1 : m[a.start]; return o;
}
static void reach(const Nfa &a, std::vector<char> &r, std::vector<int> &dist) {
	int n = a.n(); r.assign(n, 0); std::vector<int> st; if (a.start >= 0) { r[a.start] = 1; st.push_back(a.start); }
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &e : a.s[x].e) if (!r[e.second]) { r[e.second] = 1; st.push_back(e.second); } for (int t : a.s[x].eps) if (!r[t]) { r[t] = 1; st.push_back(t); } }
	dist.assign(n, -1); for (int i = 0; i < n; i++) if (a.s[i].end) dist[i] = 0;
	for (bool ch = true; ch; ) { ch = false; for (int i = 0; i < n; i++) { int d = -1; for (auto &e : a.s[i].e) if (dist[e.second] >= 0 && (d < 0 || dist[e.second] + 1 < d)) d = dist[e.second] + 1; for (int t : a.s[i].eps) if (dist[t] >= 0 && (d < 0 || dist[t] + 1 < d)) d = dist[t] + 1; if (d >= 0 && (dist[i] < 0 || d < dist[i])) { dist[i] = d; ch = true; } } }
}

enum { ADD, BULK, RM, UNEND, END, ID, EAGER, COMPACT, TRIM, TRIMSED, SHUFFLE, VACUUM, CLONE, INDEP, MERGEL, MERGER, MERGEAB, MOVE, MSTATES, COLLATE, SUBGRAPH, EDGE, EPS, NOPS };
static const char *const opname[] = { "addstate", "addstate_bulk", "removestate", "setend0", "setend1", "endid_set", "eager_set", "compact", "trim", "trim_sed", "shuffle", "vacuum", "clone", "clone_indep", "merge_left", "merge_right", "mergeab", "move", "mergestates", "collate", "subgraph", "addedge", "epsilon" };
struct Op { int k, x, y; };
struct M { struct fsm *f; Nfa m; std::set<int> tainted; };
static Nfa other() { Nfa b; b.add(); b.add(true); b.start = 0; b.lit(0, 1, 'm'); b.lit(1, 1, 'n'); b.eps(1, 0); b.s[1].ids = {40}; b.s[0].eager = {41}; return b; }

static std::vector<Op> ops_for(const M &s, int level) {
	std::vector<Op> v; int n = s.m.n();
	v.push_back({ADD, 0, 0}); if (level == 0) v.push_back({BULK, 2, 0});
	for (int i = 0; i < n; i++) { v.push_back({RM, i, 0}); if (s.m.s[i].end) { v.push_back({UNEND, i, 0}); v.push_back({ID, i, 3}); } else if (!s.tainted.count(i)) v.push_back({END, i, 0}); v.push_back({EAGER, i, 9}); }
	for (int m = 0; m < 4; m++) v.push_back({COMPACT, m, 0});
	v.push_back({TRIM, 0, 0}); v.push_back({TRIM, 1, 0}); v.push_back({TRIMSED, 1, 0});
	for (int i = 1; i <= 2; i++) v.push_back({SHUFFLE, i, 0});
	v.push_back({VACUUM, 0, 0}); v.push_back({CLONE, 0, 0}); v.push_back({INDEP, 0, 0}); v.push_back({MOVE, 0, 0});
	if (n <= 4) { v.push_back({MERGEL, 0, 0}); v.push_back({MERGER, 0, 0}); v.push_back({MERGEAB, 0, 0}); }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) v.push_back({MSTATES, i, j});
	v.push_back({COLLATE, 0, 0}); if (n <= 4) for (int i = 0; i < n; i++) v.push_back({SUBGRAPH, i, n}); 
	if (n) { v.push_back({EDGE, 0, n - 1}); v.push_back({EDGE, n - 1, 0}); v.push_back({EPS, n - 1, 0}); v.push_back({EPS, 0, n - 1}); }
	return v;
}
static int filt(fsm_state_t id, void *o) { switch (*(int *) o) { case 0: return 1; case 1: return id != 0; case 2: return id % 2 == 0; default: return 0; } }
static bool check(M &s, const Nfa &want, const char *op, std::set<int> taint = {}, int q = -2, fsm_state_t realq = 0) {
	Nfa g = extract(s.f); Nfa w = want; canon(g); canon(w); std::vector<int> p;
	if (!iso(w, g, p)) { H.fail(op, "model " + w.str() + " but got " + g.str()); return false; }
	s.m = renumber(w, p); s.tainted.clear(); for (int t : taint) s.tainted.insert(p[t]);
	if (q >= 0) { // the state handed back must play the part of state q of the model: an automorphism may move it, so try with a mark
		if (realq >= g.n()) { H.fail(std::string(op) + "-q", "state returned is out of range"); return false; }
		Nfa w2 = w, g2 = g; w2.s[q].eager.insert(777777); g2.s[realq].eager.insert(777777); std::vector<int> p2;
		if (!iso(w2, g2, p2)) { H.fail(std::string(op) + "-q", fmt("state returned (%u) is not the one meant; model ", realq) + w.str() + " got " + g.str()); return false; }
	}
	return true;
}
static bool apply(M &s, Op o) {
	Nfa w = s.m; std::set<int> t = s.tainted; const char *nm = opname[o.k]; fsm_state_t q = 0; int n = w.n();
	auto dead = [&](const std::vector<char> &k) { std::set<int> t2; int d = 0; for (int i = 0; i < n; i++) if (k[i]) { if (t.count(i)) t2.insert(d); d++; } t = t2; w = keep(w, k); };
	switch (o.k) {
	case ADD: if (!fsm_addstate(s.f, &q)) { H.fail(nm, "failed"); return false; } w.add(); return check(s, w, nm, t, n, q);
	case BULK: if (!fsm_addstate_bulk(s.f, o.x)) { H.fail(nm, "failed"); return false; } for (int i = 0; i < o.x; i++) w.add(); return check(s, w, nm, t);
	case RM: { if (!fsm_removestate(s.f, o.x)) { H.fail(nm, "failed"); return false; } std::vector<char> k(n, 1); k[o.x] = 0; dead(k); return check(s, w, nm, t); }
	case UNEND: fsm_setend(s.f, o.x, 0); w.s[o.x].end = false; w.s[o.x].ids.clear(); t.insert(o.x); return check(s, w, nm, t);
	case END: fsm_setend(s.f, o.x, 1); w.s[o.x].end = true; return check(s, w, nm, t);
	case ID: if (!fsm_endid_set(s.f, o.x, o.y)) { H.fail(nm, "failed"); return false; } w.s[o.x].ids.insert(o.y); return check(s, w, nm, t);
	case EAGER: if (!fsm_eager_output_set(s.f, o.x, o.y)) { H.fail(nm, "failed"); return false; } w.s[o.x].eager.insert(o.y); return check(s, w, nm, t);
	case COMPACT: { size_t rem = 12345; int mode = o.x; if (!fsm_compact_states(s.f, filt, &mode, &rem)) { H.fail(nm, "failed"); return false; }
		std::vector<char> k(n); size_t gone = 0; for (int i = 0; i < n; i++) { k[i] = filt(i, &mode); gone += !k[i]; } dead(k);
		if (rem != gone) { H.fail(nm, fmt("reported %zu removed, want %zu", rem, gone)); return false; } return check(s, w, nm, t); }
	case TRIM: case TRIMSED: {
		std::vector<char> r; std::vector<int> d; reach(w, r, d); size_t gone = 0; std::vector<char> k(n); std::vector<int> kd;
		bool noeps = true; for (auto &x : w.s) noeps &= x.eps.empty();
		for (int i = 0; i < n; i++) { k[i] = r[i] && (o.x == 0 || d[i] >= 0); if (k[i]) kd.push_back(d[i]); else gone++; }
		unsigned *sed = nullptr; long got = fsm_trim(s.f, o.x ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, o.k == TRIMSED ? &sed : nullptr);
		dead(k);
		if (got != (long) gone) { free(sed); H.fail(nm, fmt("reported %ld removed, want %zu", got, gone)); return false; }
		bool ok = check(s, w, nm, t);
		if (ok && o.k == TRIMSED && noeps && n > 0) {
			if (!sed && w.n()) { H.fail("trim-sed", "no distances"); return false; }
			std::vector<char> r2; std::vector<int> d2; reach(s.m, r2, d2);
			for (size_t i = 0; i < s.m.n(); i++) if ((int) sed[i] != d2[i]) { H.fail("trim-sed", fmt("state %zu: distance %u, want %d", i, sed[i], d2[i])); ok = false; break; }
		}
		free(sed); return ok; }
	case SHUFFLE: if (!fsm_shuffle(s.f, o.x)) { H.fail(nm, "failed"); return false; } return check(s, w, nm, t);
	case VACUUM: if (!fsm_vacuum(s.f)) { H.fail(nm, "failed"); return false; } return check(s, w, nm, t);
	case CLONE: { struct fsm *c = fsm_clone(s.f); if (!c) { H.fail(nm, "failed"); return false; } fsm_free(s.f); s.f = c; return check(s, w, nm, t); }
	case INDEP: { struct fsm *c = fsm_clone(s.f); if (!c) { H.fail(nm, "failed"); return false; } // changing the copy does not change this one
		fsm_state_t x; if (!fsm_addstate(c, &x)) { H.fail("clone-addstate", "failed"); fsm_free(c); return false; } fsm_addedge_literal(c, x, 0, 'q'); fsm_setend(c, x, 1); fsm_endid_set(c, x, 99); fsm_eager_output_set(c, x, 98); fsm_setstart(c, x); if (n) { fsm_setend(c, 0, 1); fsm_endid_set(c, 0, 97); fsm_addedge_literal(c, 0, x, 'r'); fsm_addedge_epsilon(c, 0, x); fsm_removestate(c, n - 1); }
		fsm_free(c); return check(s, w, nm, t); }
	case MOVE: { struct fsm *d = build(other()); fsm_move(d, s.f); s.f = d; return check(s, w, nm, t); }
	case MERGEL: case MERGER: case MERGEAB: {
		struct fsm *b = build(other()); struct fsm_combine_info ci; memset(&ci, 0x55, sizeof ci); Nfa ob = other(); struct fsm *r; fsm_state_t bb = 0;
		if (o.k == MERGEL) r = fsm_merge(s.f, b, &ci); else if (o.k == MERGER) { r = fsm_merge(b, s.f, &ci); std::swap(ci.base_a, ci.base_b); } else { r = fsm_mergeab(s.f, b, &bb); ci.base_a = 0; ci.base_b = bb; }
		if (!r) { H.fail(nm, "failed"); return false; } s.f = r; fsm_state_t st; if (fsm_getstart(r, &st)) { H.fail(nm, "the result has a start state"); return false; }
		Nfa g = extract(r); if (ci.base_a + w.n() > g.n() || ci.base_b + ob.n() > g.n()) { H.fail(nm, "bases out of range"); return false; }
		// states go exactly where the bases say
		Nfa exp; exp.s.resize(w.n() + ob.n()); auto put = [&](const Nfa &a, size_t base) { for (size_t i = 0; i < a.n(); i++) { auto st = a.s[i]; for (auto &e : st.e) e.second += base; for (auto &e : st.eps) e += base; if (base + i < exp.n()) exp.s[base + i] = st; } };
		put(w, ci.base_a); put(ob, ci.base_b); Nfa ge = g; canon(exp); canon(ge);
		for (size_t i = 0; i < exp.n(); i++) if (i >= ge.n() || !same_state(exp, i, ge, i) || exp.s[i].e != ge.s[i].e || exp.s[i].eps != ge.s[i].eps) { H.fail(nm, fmt("state %zu is not as the bases say; got ", i) + g.str()); return false; }
		// give it a start again
		std::set<int> t2; for (int x : t) t2.insert(x + ci.base_a);
		if (w.start >= 0) { fsm_setstart(r, w.start + ci.base_a); exp.start = w.start + ci.base_a; }
		return check(s, exp, nm, t2); }
	case MSTATES: {
		int a = o.x, b = o.y; if (!fsm_mergestates(s.f, a, b, &q)) { H.fail(nm, "failed"); return false; }
		for (auto &st : w.s) { for (auto &e : st.e) if (e.second == b) e.second = a; for (auto &e : st.eps) if (e == b) e = a; }
		auto &A = w.s[a], &B = w.s[b]; for (auto &e : B.e) A.e.push_back(e); for (int e : B.eps) A.eps.push_back(e);
		bool anyt = t.count(a) || t.count(b); 
		if (B.end) A.ids.insert(B.ids.begin(), B.ids.end()); A.end |= B.end; A.eager.insert(B.eager.begin(), B.eager.end());
		if (w.start == b) w.start = a; if (t.count(b)) t.insert(a);
		std::vector<char> k(n, 1); k[b] = 0; dead(k); int qa = a > b ? a - 1 : a;
		if (anyt) { // ids of a state which was an end state before are nobody's business
			Nfa g = extract(s.f); for (auto &x : g.s) x.ids.clear(); Nfa w2 = w; for (auto &x : w2.s) x.ids.clear(); canon(g); canon(w2); std::vector<int> p;
			if (!iso(w2, g, p)) H.fail(nm, "model " + w2.str() + " but got " + g.str()); return false; }
		return check(s, w, nm, t, qa, q); }
	case COLLATE: {
		int c = 0, only = -1; for (int i = 0; i < n; i++) if (w.s[i].end) { c++; only = i; }
		int r = fsm_collate(s.f, &q, fsm_isend);
		if (c == 0) { if (r) { H.fail(nm, "succeeded with nothing to collate"); return false; } return check(s, w, nm, t); }
		if (!r) { H.fail(nm, "failed"); return false; }
		if (c == 1) { if ((int) q != only) { H.fail(nm, "wrong state"); return false; } return check(s, w, nm, t); }
		w.add(); for (int i = 0; i < n; i++) if (w.s[i].end) w.eps(i, n); return check(s, w, nm, t, n, q); }
	case SUBGRAPH: {
		struct fsm_subgraph sg; sg.start = o.x; sg.end = o.y; fsm_state_t x = o.x + (o.y - o.x) / 2, x0 = x; if (o.x >= o.y) return false;
		if (!fsm_subgraph_duplicate(s.f, &sg, &x, &q)) { H.fail(nm, "failed"); return false; }
		for (int i = o.x; i < o.y; i++) { auto st = w.s[i]; Nfa::St c; c.end = st.end; for (auto &e : st.e) if (e.second >= o.x && e.second < o.y) c.e.push_back({e.first, e.second - o.x + n}); for (int e : st.eps) if (e >= o.x && e < o.y) c.eps.push_back(e - o.x + n); w.s.push_back(c); }
		// labels of the copies are not promised either way
		{ Nfa g = extract(s.f), w2 = w; for (size_t i = 0; i < g.n(); i++) if ((int) i >= n) { g.s[i].ids.clear(); g.s[i].eager.clear(); } canon(g); canon(w2); std::vector<int> p;
		  bool ok = g.n() == w2.n(); for (size_t i = 0; ok && i < g.n(); i++) ok = same_state(w2, i, g, i) && w2.s[i].e == g.s[i].e && w2.s[i].eps == g.s[i].eps;
		  if (!ok || g.start != w2.start) { H.fail(nm, "model " + w2.str() + " but got " + g.str()); return false; }
		  if ((int) q != n || x != x0 - o.x + n) { H.fail(nm, fmt("returned start %u and x %u", q, x)); return false; } }
		s.m = extract(s.f); s.tainted = t; canon(s.m); return true; }
	case EDGE: if (!fsm_addedge_literal(s.f, o.x, o.y, 'e')) { H.fail(nm, "failed"); return false; } w.lit(o.x, o.y, 'e'); return check(s, w, nm, t);
	case EPS: if (!fsm_addedge_epsilon(s.f, o.x, o.y)) { H.fail(nm, "failed"); return false; } w.eps(o.x, o.y); return check(s, w, nm, t);
	}
	return false;
}
static std::string show(const std::vector<Op> &seq) { std::string s; for (auto &o : seq) s += fmt(" %s(%d,%d)", opname[o.k], o.x, o.y); return s; }
static void decorate(Nfa &a, int k) {
	assign_ids(a, k % 5); for (size_t i = 0; i < a.n(); i++) if ((i + k) % 2) a.s[i].eager.insert(i * 2 + 1);
}
static void explore(const Nfa &a0, int depth) {
	// every sequence of edits up to the depth, each replayed from scratch on a fresh machine
	std::function<void(std::vector<Op> &)> rec = [&](std::vector<Op> &seq) {
		M s; s.f = build(a0); s.m = a0; canon(s.m); bool ok = true; uint64_t nf = H.nfails;
		H.cur = [&] { return a0.str() + " then" + show(seq); };
		for (auto &o : seq) if (!(ok = apply(s, o))) break;
		H.traces++; H.transitions += seq.size(); H.tick();
		if (ok && (int) seq.size() == depth && s.m.start >= 0) {
			// counts kept beside the graph must agree too: they decide what reversal does
			if (!fsm_reverse(s.f)) H.fail("then-reverse", "failed"); else { Diff d = compare(ref_reverse(s.m), extract(s.f), CMP_END); if (d.differ) H.fail("then-reverse", d.why); }
		}
		std::vector<Op> next; if (ok && (int) seq.size() < depth) next = ops_for(s, seq.size());
		fsm_free(s.f);
		if (H.nfails > nf || H.stop()) return;
		for (auto &o : next) { seq.push_back(o); rec(seq); seq.pop_back(); if (H.nfails > nf + 20) return; }
	};
	std::vector<Op> seq; rec(seq);
}
static void big(const Nfa &a, const std::string &name) {
	if (!H.begin([&] { return "big " + name; })) return;
	H.nontrivial++;
	auto lang = [&](struct fsm *f, const Nfa &w, const char *op) {
		Nfa g = extract(f); if (g.n() != w.n()) { H.fail(op, fmt("%zu states, want %zu", g.n(), w.n())); return; }
		auto sig = [](const Nfa &x) { std::multiset<std::string> m; for (auto &s : x.s) { int k = 0; for (auto &e : s.e) k += e.first.count(); std::set<int> ep(s.eps.begin(), s.eps.end()); m.insert(fmt("%d %d %zu ", s.end, k, ep.size()) + (s.end ? show(s.ids) : "") + show(s.eager)); } return m; };
		if (sig(g) != sig(w)) { H.fail(op, "the states' ends, ids or edge counts differ"); return; }
		Diff d = compare(w, g, CMP_END | CMP_IDS | CMP_EAGER, 3000); if (d.differ) H.fail(op, d.why);
	};
	struct fsm *f = build(a); fsm_shuffle(f, 5); lang(f, a, "big-shuffle"); struct fsm *c = fsm_clone(f); fsm_free(f); lang(c, a, "big-clone");
	int mode = 2; std::vector<char> k(a.n()); for (size_t i = 0; i < a.n(); i++) k[i] = i % 2 == 0; fsm_free(c);
	f = build(a); if (!fsm_compact_states(f, filt, &mode, nullptr)) H.fail("big-compact", "failed"); else { lang(f, keep(a, k), "big-compact"); fsm_vacuum(f); lang(f, keep(a, k), "big-vacuum"); for (int i = 0; i < 200; i++) { fsm_state_t x; fsm_addstate(f, &x); } Nfa w = keep(a, k); for (int i = 0; i < 200; i++) w.add(); lang(f, w, "big-grow"); } fsm_free(f);
	f = build(a); Nfa w = a; for (int i = 0; i < 5 && w.n() > 1; i++) { int x = (i * 7 + 1) % w.n(); std::vector<char> k2(w.n(), 1); k2[x] = 0; if (!fsm_removestate(f, x)) { H.fail("big-removestate", "failed"); break; } w = keep(w, k2); lang(f, w, "big-removestate"); w = extract(f); } fsm_free(f);
	for (int m = 0; m < 2; m++) { f = build(a); std::vector<char> r; std::vector<int> d; reach(a, r, d); for (size_t i = 0; i < a.n(); i++) k[i] = r[i] && (!m || d[i] >= 0); unsigned *sed = nullptr; fsm_trim(f, m ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, m ? &sed : nullptr); Nfa w = keep(a, k); lang(f, w, "big-trim");
		bool noeps = true; for (auto &x : a.s) noeps &= x.eps.empty();
		if (m && noeps && sed) { Nfa g = extract(f); reach(g, r, d); for (size_t i = 0; i < g.n(); i++) if ((int) sed[i] != d[i]) { H.fail("big-trim-sed", fmt("state %zu: %u, want %d", i, sed[i], d[i])); break; } } free(sed); fsm_free(f); }
	f = build(a); struct fsm *b = build(a); struct fsm_combine_info ci; f = fsm_merge(f, b, &ci); if (!f) H.fail("big-merge", "failed"); else { for (int s = 0; s < 2; s++) { Nfa g = extract(f); g.start = a.start + (s ? ci.base_b : ci.base_a); Diff d = compare(a, g, CMP_END | CMP_IDS | CMP_EAGER, 3000); if (d.differ) H.fail("big-merge", d.why); } fsm_free(f); }
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool lite = H.arg.count("lite"), T = H.thorough && !lite, L = lite && !H.thorough;
	auto run = [&](Nfa a, int depth) { decorate(a, H.idx % 7); if (H.idx % 5 == 4) a.start = -1; if (!H.begin([&] { return "edits of " + a.str(); })) return; H.nontrivial++; explore(a, depth); };
	if (H.take()) run(Nfa(), L ? 2 : 3);
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { run(a, T ? 4 : L ? 2 : 3); });
	enum_nfas(2, T ? 3 : L ? 1 : 2, 2, true, [&](const Nfa &a) { run(a, T ? 3 : 2); });
	if (!L) enum_nfas(3, T ? 3 : 2, 2, true, [&](const Nfa &a) { run(a, T && H.idx % 7 == 0 ? 3 : 2); }, false);
	enum_families([&](const Nfa &a0, const std::string &n) { Nfa a = a0; decorate(a, 1 + H.idx % 5); big(a, n); }, T ? 400 : L ? 140 : 260, false, T ? 4 : 1);
	return H.finish();
}
