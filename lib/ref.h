// Reference automata: boring explicit NFAs over bytes, kept apart from libfsm, with product exploration.
#pragma once
#include "vh.h"
#include <bitset>
#include <deque>
#include <queue>
#include <array>
extern "C" {
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/options.h>
#include <fsm/alloc.h>
#include <fsm/print.h>
#include <fsm/cost.h>
#include <fsm/parser.h>
}
typedef std::bitset<256> Bytes;
typedef std::set<uint64_t> Ids;

static inline std::string show(const Bytes &b) {
	std::string o;
	for (int i = 0; i < 256; i++) if (b[i]) {
		int j = i; while (j + 1 < 256 && b[j + 1]) j++;
		auto c = [](int x) { return x > 32 && x < 127 && x != '-' && x != ',' ? fmt("%c", x) : fmt("\\x%02x", x); };
		o += c(i); if (j > i) o += "-" + c(j);
		i = j;
	}
	return o;
}

struct Nfa {
	struct St { std::vector<std::pair<Bytes, int>> e; std::vector<int> eps; bool end = false; Ids ids, eager; };
	std::vector<St> s;
	int start = -1;
	int add(bool end = false) { s.push_back(St()); s.back().end = end; return (int) s.size() - 1; }
	void lit(int a, int b, unsigned char c) { for (auto &x : s[a].e) if (x.second == b) { x.first.set(c); return; } Bytes y; y.set(c); s[a].e.push_back({y, b}); }
	void set(int a, int b, const Bytes &m) { for (auto &x : s[a].e) if (x.second == b) { x.first |= m; return; } s[a].e.push_back({m, b}); }
	void eps(int a, int b) { for (int x : s[a].eps) if (x == b) return; s[a].eps.push_back(b); }
	size_t n() const { return s.size(); }
	std::string str() const {
		std::string o = fmt("n%zu s%d", s.size(), start);
		for (size_t i = 0; i < s.size(); i++) {
			o += fmt(" %zu%s", i, s[i].end ? "!" : "");
			if (!s[i].ids.empty()) { o += "#"; for (auto x : s[i].ids) o += fmt("%llu,", (unsigned long long) x); }
			if (!s[i].eager.empty()) { o += "@"; for (auto x : s[i].eager) o += fmt("%llu,", (unsigned long long) x); }
			o += "{";
			for (auto &e : s[i].e) o += show(e.first) + fmt(">%d ", e.second);
			for (int e : s[i].eps) o += fmt("~>%d ", e);
			o += "}";
			if (o.size() > 3000) { o += "..."; break; }
		}
		return o;
	}
};

// build through the public API; literal edges only unless the set is full and useany
static inline struct fsm *build(const Nfa &a, const struct fsm_alloc *al = nullptr, bool useany = true) {
	struct fsm *f = fsm_new(al);
	if (!f) return nullptr;
	for (size_t i = 0; i < a.n(); i++) { fsm_state_t x; if (!fsm_addstate(f, &x)) { fsm_free(f); return nullptr; } }
	for (size_t i = 0; i < a.n(); i++) {
		for (auto &e : a.s[i].e) {
			if (useany && e.first.all()) { if (!fsm_addedge_any(f, i, e.second)) { fsm_free(f); return nullptr; } }
			else for (int c = 0; c < 256; c++) if (e.first[c]) if (!fsm_addedge_literal(f, i, e.second, (char) c)) { fsm_free(f); return nullptr; }
		}
		for (int t : a.s[i].eps) if (!fsm_addedge_epsilon(f, i, t)) { fsm_free(f); return nullptr; }
		if (a.s[i].end) fsm_setend(f, i, 1);
		for (auto id : a.s[i].ids) if (!fsm_endid_set(f, i, id)) { fsm_free(f); return nullptr; }
		for (auto id : a.s[i].eager) if (!fsm_eager_output_set(f, i, id)) { fsm_free(f); return nullptr; }
	}
	if (a.start >= 0) fsm_setstart(f, a.start);
	return f;
}

// read a machine back through the public walkers
static inline Nfa extract(const struct fsm *f) {
	Nfa a;
	a.s.resize(fsm_countstates(f));
	struct W {
		static int lit(const struct fsm *, fsm_state_t x, fsm_state_t y, char c, void *o) {
			Nfa &a = *(Nfa *) o;
			if (x >= a.n() || y >= a.n()) { fprintf(stderr, "edge to state out of range\n"); abort(); }
			auto &v = a.s[x].e;
			if (!v.empty() && v.back().second == (int) y) v.back().first.set((unsigned char) c);
			else a.lit(x, y, c);
			return 1;
		}
		static int eps(const struct fsm *, fsm_state_t x, fsm_state_t y, void *o) {
			Nfa &a = *(Nfa *) o;
			if (x >= a.n() || y >= a.n()) { fprintf(stderr, "epsilon to state out of range\n"); abort(); }
			a.s[x].eps.push_back(y); return 1;
		}
	};
	fsm_walk_edges(f, &a, W::lit, W::eps);
	for (size_t i = 0; i < a.n(); i++) {
		a.s[i].end = fsm_isend(f, i);
		size_t k = fsm_endid_count(f, i);
		if (k) {
			std::vector<fsm_end_id_t> b(k);
			if (fsm_endid_get(f, i, k, b.data()) != 1) { fprintf(stderr, "fsm_endid_get failed\n"); abort(); }
			for (auto x : b) a.s[i].ids.insert(x);
		}
		k = fsm_eager_output_count(f, i);
		if (k) {
			std::vector<fsm_output_id_t> b(k);
			if (fsm_eager_output_get(f, i, k, b.data()) != 1) { fprintf(stderr, "fsm_eager_output_get failed\n"); abort(); }
			for (auto x : b) a.s[i].eager.insert(x);
		}
	}
	fsm_state_t st;
	a.start = fsm_getstart(f, &st) ? (int) st : -1;
	return a;
}

// ---- subset simulation ----
struct Obs { bool end = false; Ids ids, eager; bool operator==(const Obs &o) const { return end == o.end && ids == o.ids && eager == o.eager; } };
typedef std::vector<int> Set;
struct SetHash { size_t operator()(const Set &s) const { uint64_t h = 0x9e3779b97f4a7c15ULL; for (int x : s) h = mix64(h ^ (uint64_t) (x + 1)); return h; } };

// Byte equivalence classes common to a list of automata: bytes in one class label exactly the same edges.
static inline std::vector<unsigned char> byte_classes(const std::vector<const Nfa *> &as, unsigned char cls[256], bool full = false) {
	std::vector<int> id(256, 0); int n = 1;
	if (full) { std::vector<unsigned char> r; for (int i = 0; i < 256; i++) { cls[i] = i; r.push_back(i); } return r; }
	for (auto a : as) for (auto &st : a->s) for (auto &e : st.e) {
		if (e.first.all()) continue;
		std::map<std::pair<int, bool>, int> m; int k = 0; std::vector<int> nid(256);
		bool same = true; // does it split anything?
		{ signed char seen[256]; memset(seen, -1, sizeof seen); for (int c = 0; c < 256 && same; c++) { if (seen[id[c]] < 0) seen[id[c]] = e.first[c]; else if (seen[id[c]] != (signed char) e.first[c]) same = false; } }
		if (same) continue;
		for (int c = 0; c < 256; c++) { auto key = std::make_pair(id[c], (bool) e.first[c]); auto it = m.find(key); if (it == m.end()) it = m.insert({key, k++}).first; nid[c] = it->second; }
		id = nid; n = k;
	}
	std::vector<unsigned char> rep; std::vector<int> seen(n, 0);
	for (int c = 0; c < 256; c++) { cls[c] = id[c]; if (!seen[id[c]]) { seen[id[c]] = 1; rep.push_back(c); } }
	return rep;
}

struct Sim { // determinised view of an Nfa, built lazily; state 0 is the dead (empty) subset
	const Nfa *a; std::vector<unsigned char> reps;
	std::vector<Set> sets; std::unordered_map<Set, int, SetHash> ids; std::vector<std::vector<int>> next; std::vector<Obs> obs;
	int start;
	std::vector<char> mark;
	Sim(const Nfa &a_, const std::vector<unsigned char> &r) : a(&a_), reps(r), mark(a_.n(), 0) {
		intern(Set());
		Set s; if (a->start >= 0) { s.push_back(a->start); close(s); }
		start = intern(s);
	}
	void close(Set &s) {
		for (int x : s) mark[x] = 1;
		for (size_t i = 0; i < s.size(); i++) for (int t : a->s[s[i]].eps) if (!mark[t]) { mark[t] = 1; s.push_back(t); }
		for (int x : s) mark[x] = 0;
		std::sort(s.begin(), s.end());
	}
	int intern(const Set &s) {
		auto it = ids.find(s); if (it != ids.end()) return it->second;
		int k = (int) sets.size(); ids[s] = k; sets.push_back(s); next.push_back(std::vector<int>(reps.size(), -1));
		Obs o; for (int x : s) { auto &st = a->s[x]; if (st.end) { o.end = true; o.ids.insert(st.ids.begin(), st.ids.end()); } o.eager.insert(st.eager.begin(), st.eager.end()); }
		obs.push_back(o);
		return k;
	}
	int step(int q, int r) {
		if (next[q][r] >= 0) return next[q][r];
		Set t; unsigned char c = reps[r];
		for (int x : sets[q]) for (auto &e : a->s[x].e) if (e.first[c] && !mark[e.second]) { mark[e.second] = 1; t.push_back(e.second); }
		for (int x : t) mark[x] = 0;
		close(t);
		int k = intern(t); next[q][r] = k; return k;
	}
};

enum { CMP_END = 1, CMP_IDS = 2, CMP_EAGER = 4 };
struct Diff { bool differ = false; std::string witness, why; bool capped = false; };

static inline std::string show(const Ids &s) { std::string o = "{"; for (auto x : s) o += fmt("%llu,", (unsigned long long) x); return o + "}"; }
static inline std::string show(const Obs &o) { return std::string(o.end ? "accept" : "reject") + show(o.ids) + (o.eager.empty() ? "" : "@" + show(o.eager)); }

// Joint exploration of every reachable product state; equal observations everywhere decide agreement on all strings.
static inline Diff compare(const Nfa &A, const Nfa &B, int what = CMP_END, size_t cap = 200000, bool fullbytes = false) {
	unsigned char cls[256];
	auto reps = byte_classes({&A, &B}, cls, fullbytes);
	Sim a(A, reps), b(B, reps);
	struct N { int x, y, parent; int via; };
	std::vector<N> q; std::unordered_map<uint64_t, int> seen;
	auto key = [](int x, int y) { return ((uint64_t) x << 32) | (unsigned) y; };
	q.push_back({a.start, b.start, -1, -1}); seen[key(a.start, b.start)] = 0;
	Diff d;
	auto wit = [&](int i) { std::string s; while (q[i].parent >= 0) { s += (char) reps[q[i].via]; i = q[i].parent; } std::reverse(s.begin(), s.end()); return s; };
	for (size_t i = 0; i < q.size(); i++) {
		const Obs &oa = a.obs[q[i].x], &ob = b.obs[q[i].y];
		if (oa.end != ob.end || ((what & CMP_IDS) && oa.ids != ob.ids) || ((what & CMP_EAGER) && oa.eager != ob.eager && (oa.end || ob.end || !(what & 8)))) {
			d.differ = true; d.witness = wit(i); d.why = "on " + show(d.witness) + ": got " + show(ob) + ", want " + show(oa); break;
		}
		if (q.size() > cap) { d.capped = true; break; }
		for (size_t r = 0; r < reps.size(); r++) {
			int x = a.step(q[i].x, r), y = b.step(q[i].y, r);
			H.transitions++;
			if (seen.emplace(key(x, y), (int) q.size()).second) q.push_back({x, y, (int) i, (int) r});
		}
	}
	H.states += q.size();
	if (d.capped) H.counters["product_capped"]++;
	return d;
}

// ---- reference operations (all by plain set/graph definitions) ----
static inline Nfa ref_dfa(const Nfa &A, size_t cap = (size_t) -1) { // complete DFA, ids unioned; no states when it would exceed the cap
	unsigned char cls[256]; auto reps = byte_classes({&A}, cls);
	Sim s(A, reps); Nfa d;
	for (size_t i = 0; i < s.sets.size(); i++) { for (size_t r = 0; r < reps.size(); r++) s.step(i, r); if (s.sets.size() > cap) return d; }
	for (size_t i = 0; i < s.sets.size(); i++) { d.add(s.obs[i].end); d.s[i].ids = s.obs[i].ids; d.s[i].eager = s.obs[i].eager; }
	std::vector<Bytes> m(reps.size()); 
	for (int c = 0; c < 256; c++) for (size_t r = 0; r < reps.size(); r++) if (cls[reps[r]] == cls[c]) m[r].set(c);
	for (size_t i = 0; i < s.sets.size(); i++) for (size_t r = 0; r < reps.size(); r++) d.set(i, s.next[i][r], m[r]);
	d.start = s.start;
	return d;
}
static inline Nfa ref_product(const Nfa &A, const Nfa &B, std::function<bool(bool, bool)> f) {
	unsigned char cls[256]; auto reps = byte_classes({&A, &B}, cls);
	Sim a(A, reps), b(B, reps); Nfa d; std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int>> q;
	auto get = [&](int x, int y) { auto k = std::make_pair(x, y); auto it = id.find(k); if (it != id.end()) return it->second;
		int n = d.add(f(a.obs[x].end, b.obs[y].end)); id[k] = n; q.push_back(k);
		d.s[n].ids = a.obs[x].ids; d.s[n].ids.insert(b.obs[y].ids.begin(), b.obs[y].ids.end()); return n; };
	std::vector<Bytes> m(reps.size());
	for (int c = 0; c < 256; c++) for (size_t r = 0; r < reps.size(); r++) if (cls[reps[r]] == cls[c]) m[r].set(c);
	d.start = get(a.start, b.start);
	for (size_t i = 0; i < q.size(); i++) for (size_t r = 0; r < reps.size(); r++) { int x = a.step(q[i].first, r), y = b.step(q[i].second, r); int t = get(x, y); d.set(i, t, m[r]); }
	return d;
}
static inline Nfa ref_side(const std::vector<const Nfa *> &v) { // disjoint copy, no start
	Nfa d; for (auto a : v) { int base = d.n(); for (auto &st : a->s) { d.s.push_back(st); for (auto &e : d.s.back().e) e.second += base; for (auto &e : d.s.back().eps) e += base; } } return d;
}
static inline Nfa ref_union(const std::vector<const Nfa *> &v) {
	Nfa d = ref_side(v); int st = d.add(); d.start = st; int base = 0;
	for (auto a : v) { if (a->start >= 0) d.eps(st, a->start + base); base += a->n(); }
	return d;
}
static inline Nfa ref_concat(const Nfa &A, const Nfa &B) {
	Nfa d = ref_side({&A, &B}); int base = A.n(); d.start = A.start;
	for (int i = 0; i < base; i++) if (A.s[i].end) { d.s[i].end = false; d.s[i].ids.clear(); if (B.start >= 0) d.eps(i, B.start + base); }
	return d;
}
static inline Nfa ref_reverse(const Nfa &A) {
	Nfa d; for (size_t i = 0; i < A.n(); i++) d.add((int) i == A.start);
	int st = d.add(); d.start = st;
	for (size_t i = 0; i < A.n(); i++) { for (auto &e : A.s[i].e) d.set(e.second, i, e.first); for (int t : A.s[i].eps) d.eps(t, i); if (A.s[i].end) d.eps(st, i); }
	return d;
}
// Number of states of the minimal trimmed DFA for A distinguishing the observations in `what`; 0 for the empty language.
static inline size_t ref_min_states(const Nfa &A, int what) {
	Nfa d = ref_dfa(A); size_t n = d.n();
	// co-reachability
	std::vector<char> live(n, 0); for (size_t i = 0; i < n; i++) live[i] = d.s[i].end;
	for (bool ch = true; ch; ) { ch = false; for (size_t i = 0; i < n; i++) if (!live[i]) for (auto &e : d.s[i].e) if (live[e.second]) { live[i] = 1; ch = true; break; } }
	std::vector<int> cl(n); { std::map<std::string, int> m; for (size_t i = 0; i < n; i++) { std::string k = live[i] ? "L" : "D"; if (live[i]) { k += d.s[i].end ? "1" : "0"; if ((what & CMP_IDS) && d.s[i].end) k += show(d.s[i].ids); if (what & CMP_EAGER) k += "@" + show(d.s[i].eager); } cl[i] = m.emplace(k, (int) m.size()).first->second; } }
	unsigned char cc[256]; auto reps = byte_classes({&d}, cc);
	std::vector<std::vector<int>> nx(n, std::vector<int>(reps.size(), 0));
	for (size_t i = 0; i < n; i++) for (size_t r = 0; r < reps.size(); r++) for (auto &e : d.s[i].e) if (e.first[reps[r]]) nx[i][r] = e.second;
	for (size_t k = 0; ; ) {
		std::map<std::vector<int>, int> m; std::vector<int> c2(n);
		for (size_t i = 0; i < n; i++) { std::vector<int> v{cl[i]}; for (size_t r = 0; r < reps.size(); r++) v.push_back(cl[nx[i][r]]); c2[i] = m.emplace(v, (int) m.size()).first->second; }
		cl = c2; if (m.size() == k) break; k = m.size();
	}
	std::set<int> u; for (size_t i = 0; i < n; i++) if (live[i]) u.insert(cl[i]);
	return u.size();
}
static inline bool ref_accepts(const Nfa &a, const std::string &s, Ids *ids = nullptr) {
	std::vector<char> cur(a.n(), 0), nx;
	auto close = [&](std::vector<char> &v) { std::vector<int> st; for (size_t i = 0; i < v.size(); i++) if (v[i]) st.push_back(i); while (!st.empty()) { int x = st.back(); st.pop_back(); for (int t : a.s[x].eps) if (!v[t]) { v[t] = 1; st.push_back(t); } } };
	if (a.start < 0) return false;
	cur[a.start] = 1; close(cur);
	for (unsigned char c : s) { nx.assign(a.n(), 0); for (size_t i = 0; i < a.n(); i++) if (cur[i]) for (auto &e : a.s[i].e) if (e.first[c]) nx[e.second] = 1; close(nx); cur = nx; }
	bool r = false; for (size_t i = 0; i < a.n(); i++) if (cur[i] && a.s[i].end) { r = true; if (ids) ids->insert(a.s[i].ids.begin(), a.s[i].ids.end()); }
	return r;
}
static inline bool ref_empty(const Nfa &a) {
	if (a.start < 0) return true; std::vector<char> v(a.n(), 0); std::vector<int> st{a.start}; v[a.start] = 1;
	while (!st.empty()) { int x = st.back(); st.pop_back(); if (a.s[x].end) return false;
		for (int t : a.s[x].eps) if (!v[t]) { v[t] = 1; st.push_back(t); }
		for (auto &e : a.s[x].e) if (e.first.any() && !v[e.second]) { v[e.second] = 1; st.push_back(e.second); } }
	return true;
}

// structural facts read straight from the graph
static inline bool is_dfa_shape(const Nfa &a, std::string *why = nullptr) {
	for (size_t i = 0; i < a.n(); i++) {
		if (!a.s[i].eps.empty()) { if (why) *why = fmt("state %zu has an epsilon", i); return false; }
		Bytes seen; for (auto &e : a.s[i].e) { if ((seen & e.first).any()) { if (why) *why = fmt("state %zu has two transitions on a byte", i); return false; } seen |= e.first; }
	}
	return true;
}

// ---- running the real matcher ----
struct MemIn { const char *p; size_t n, i = 0; size_t reads_after_eof = 0; };
static inline int mem_getc(void *o) { MemIn *m = (MemIn *) o; if (m->i >= m->n) { m->reads_after_eof++; return EOF; } return (unsigned char) m->p[m->i++]; }
static inline int run_exec(const struct fsm *f, const std::string &s, fsm_state_t *end, MemIn *pm = nullptr) {
	MemIn m{s.data(), s.size()}; int r = fsm_exec(f, mem_getc, &m, end, nullptr); if (pm) *pm = m; return r;
}
// replay every string up to len over reps against the real fsm_exec and the reference; conformance of the extraction
template <class F> static inline void all_strings(const std::vector<unsigned char> &al, int len, F f) {
	std::string s; std::function<bool(int)> rec = [&](int d) { if (!f(s)) return false; if (d == len) return true; for (unsigned char c : al) { s.push_back((char) c); bool r = rec(d + 1); s.pop_back(); if (!r) return false; } return true; };
	rec(0);
}
