// P08: end ids. (1) every short sequence of calls to the id accessors and mutators against a map of sets;
// (2) every short pipeline of transformations, ids compared on every reachable product state and by execution.
#include "gen.h"
extern "C" {
#include "libfsm/internal.h"
#include "libfsm/endids.h"
}
// internal to the library: used where they exist
#pragma weak fsm_endid_iter
#pragma weak fsm_endid_iter_bulk
#pragma weak fsm_endid_iter_state
#pragma weak fsm_endid_set_bulk
static bool internals() { return fsm_endid_iter && fsm_endid_iter_bulk && fsm_endid_iter_state && fsm_endid_set_bulk; }
// ---- part 1
typedef std::map<int, std::set<unsigned>> Model;
struct Op { int k; int s; unsigned v; };
enum { SET, APP, REP, ALL, MAPID, MAP1, MAPHALF, MAPREV, STOP, INC, NK };
static const char *const kname[] = { "set", "append", "replace", "setendid", "map-identity", "map-to-one", "map-half", "map-reverse", "map-stop", "increment" };
static const std::vector<std::vector<unsigned>> lists = { {}, {5}, {3, 3, 1}, {0xffffffffu, 0}, {9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, {40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 40, 39, 38}, [] { std::vector<unsigned> v; for (unsigned i = 0; i < 150; i++) v.push_back(i * 7919 % 401); return v; }() };
static const unsigned deltas[] = { 1, 0xfffffffdu, 0x80000000u };
struct Env { int mode; int calls; int bad; std::map<int, std::set<unsigned>> saw; const struct fsm *f; };
static int remap_cb(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *w, void *o) {
	Env *e = (Env *) o; e->calls++; for (size_t i = 0; i < n; i++) { e->saw[s].insert(ids[i]); if (i && ids[i] <= ids[i - 1]) e->bad |= 1; } if (!fsm_isend(e->f, s)) e->bad |= 2;
	if (!n) { e->bad |= 0; *w = 0; return 1; }
	switch (e->mode) {
	case MAPID: *w = n; return 1;
	case MAP1: for (size_t i = 0; i < n; i++) ids[i] = 1; *w = n; return 1;
	case MAPHALF: { size_t k = (n + 1) / 2; for (size_t i = 0; i < k; i++) ids[i] = ids[n - k + i]; *w = k; return 1; }
	case MAPREV: for (size_t i = 0; i < n; i++) ids[i] = 100 - ids[i]; *w = n; return 1;
	default: *w = 0; return 0;
	}
}
static int it_cb(fsm_state_t s, const fsm_end_id_t id, void *o) { Env *e = (Env *) o; e->calls++; if (!e->saw[s].insert(id).second) e->bad |= 1; return 1; }
static int itb_cb(fsm_state_t s, const fsm_end_id_t *ids, size_t n, void *o) { Env *e = (Env *) o; for (size_t i = 0; i < n; i++) if (!e->saw[s].insert(ids[i]).second) e->bad |= 1; return 1; }
static int it1_cb(fsm_state_t s, const fsm_end_id_t id, void *o) { Env *e = (Env *) o; e->calls++; (void) s; (void) id; return 0; }
static std::vector<Op> opset(const std::vector<int> &st) {
	std::vector<Op> v; const unsigned vals[] = { 0, 5, 0x80000005u, 0xffffffffu };
	for (int s : st) { for (unsigned x : vals) v.push_back({SET, s, x}); if (internals()) for (unsigned i = 0; i < lists.size(); i++) { v.push_back({APP, s, i}); v.push_back({REP, s, i}); } }
	v.push_back({ALL, 0, 5}); v.push_back({ALL, 0, 6}); for (int k = MAPID; k <= STOP; k++) v.push_back({k, 0, 0}); for (unsigned d : deltas) v.push_back({INC, 0, d});
	return v;
}
static bool do_op(struct fsm *f, Model &m, const Op &o, const std::vector<int> &ends) {
	switch (o.k) {
	case SET: if (!fsm_endid_set(f, o.s, o.v)) return H.fail("set", "failed"), false; m[o.s].insert(o.v); break;
	case APP: case REP: { auto &l = lists[o.v]; if (!fsm_endid_set_bulk(f, o.s, l.size(), l.data(), o.k == REP ? FSM_ENDID_BULK_REPLACE : FSM_ENDID_BULK_APPEND)) return H.fail("bulk", "failed"), false; if (o.k == REP) m[o.s].clear(); m[o.s].insert(l.begin(), l.end()); break; }
	case ALL: if (!fsm_setendid(f, o.v)) return H.fail("setendid", "failed"), false; for (int s : ends) m[s].insert(o.v); break;
	case INC: fsm_increndids(f, (int) o.v); for (auto &x : m) { std::set<unsigned> t; for (unsigned y : x.second) t.insert(y + o.v); x.second = t; } break;
	default: {
		Env e; e.mode = o.k; e.calls = 0; e.bad = 0; e.f = f; int r = fsm_mapendids(f, remap_cb, &e); int want = 0; for (auto &x : m) want += !x.second.empty();
		if (e.bad & 1) return H.fail("remap-sorted", "the ids given to the callback are not sorted and unique"), false;
		if (e.bad & 2) return H.fail("remap-end", "the callback was given a state which is not an end state"), false;
		for (auto &x : e.saw) if (m[x.first] != x.second) return H.fail("remap-arg", fmt("wrong ids given for state %d", x.first)), false;
		if (o.k == STOP ? r != (want == 0) : r != 1) return H.fail("remap-return", fmt("returned %d", r)), false;
		if (o.k == STOP) { if (want && e.saw.size() != 1) return H.fail("remap-stop", fmt("%zu states visited after stopping", e.saw.size())), false; break; }
		if ((int) e.saw.size() != want) return H.fail("remap-calls", fmt("%zu states visited, want %d", e.saw.size(), want)), false;
		for (auto &x : m) if (!x.second.empty()) { std::vector<unsigned> v(x.second.begin(), x.second.end()); size_t n = v.size();
			if (o.k == MAP1) v.assign(1, 1); else if (o.k == MAPHALF) v = std::vector<unsigned>(v.end() - (n + 1) / 2, v.end()); else if (o.k == MAPREV) for (auto &y : v) y = 100 - y;
			x.second = std::set<unsigned>(v.begin(), v.end()); }
	} }
	return true;
}
static bool look(const struct fsm *f, const Model &m, size_t n) {
	Env a, b; a.bad = b.bad = 0; a.calls = b.calls = 0; bool in = internals(); int r = 1; if (in) fsm_endid_iter(f, it_cb, &a), r = fsm_endid_iter_bulk(f, itb_cb, &b); 
	if (a.bad || b.bad) return H.fail("iter-dup", "an id was given twice"), false; if (r != 1) return H.fail("iter-bulk", "failed"), false;
	for (size_t s = 0; s < n; s++) {
		auto it = m.find(s); static const std::set<unsigned> none; const std::set<unsigned> &w = it == m.end() ? none : it->second;
		size_t c = fsm_endid_count(f, s); if (c != w.size()) return H.fail("count", fmt("state %zu has %zu ids, want %zu", s, c, w.size())), false;
		std::vector<unsigned> v(w.begin(), w.end()); std::vector<fsm_end_id_t> g(c + 2, 0x5a5a5a5a);
		for (size_t extra = 0; extra < 2; extra++) { if (fsm_endid_get(f, s, c + extra, g.data()) != 1) return H.fail("get", "failed"), false; for (size_t i = 0; i < c; i++) if (g[i] != v[i]) return H.fail("get", fmt("state %zu id %zu is %u, want %u", s, i, g[i], v[i])), false; if (g[c] != 0x5a5a5a5a) return H.fail("get-over", "wrote too far"), false; }
		if (c) { g.assign(c + 2, 0x5a5a5a5a); if (fsm_endid_get(f, s, c - 1, g.data()) != 0) return H.fail("get-small", "succeeded with too small a buffer"), false; if (g[c - 1] != 0x5a5a5a5a) return H.fail("get-over", "wrote beyond the buffer"), false; }
		if (!in) continue;
		Env e; e.bad = 0; e.calls = 0; fsm_endid_iter_state(f, s, it_cb, &e); if (e.bad || e.calls != (int) c || (c && e.saw[s] != w)) return H.fail("iter-state", fmt("state %zu", s)), false;
		e.calls = 0; fsm_endid_iter_state(f, s, it1_cb, &e); if (e.calls != (c ? 1 : 0)) return H.fail("iter-halt", fmt("%d calls", e.calls)), false;
		if (a.saw[s] != w) return H.fail("iter", fmt("state %zu", s)), false; if (b.saw[s] != w) return H.fail("iter-bulk", fmt("state %zu", s)), false;
	}
	return true;
}
static void sequences(int nstates, int prefill, int depth, const std::vector<int> &st, int first) {
	std::vector<Op> ops = opset(st), seq; std::vector<int> ends; for (int i = 0; i < nstates; i++) if (i < prefill || std::count(st.begin(), st.end(), i)) ends.push_back(i);
	std::function<void()> rec = [&]() {
		struct fsm *f = fsm_new(nullptr); fsm_addstate_bulk(f, nstates); for (int e : ends) fsm_setend(f, e, 1);
		Model m; for (int i = 0; i < prefill; i++) { fsm_endid_set(f, i, i + 200); m[i].insert(i + 200); }
		H.cur = [&] { std::string s = fmt("%d states, %d with ids;", nstates, prefill); for (auto &o : seq) s += fmt(" %s(%d,%u)", kname[o.k], o.s, o.v); return s; };
		bool ok = true; for (auto &o : seq) if (!(ok = do_op(f, m, o, ends))) break;
		if (ok) ok = look(f, m, nstates);
		H.traces++; H.transitions += seq.size(); H.tick(); fsm_free(f);
		if (!ok || H.stop() || (int) seq.size() == depth) return;
		for (size_t i = 0; i < ops.size(); i++) { if (seq.empty() && first >= 0 && (int) i != first) continue; seq.push_back(ops[i]); rec(); seq.pop_back(); if (H.nfails > 20) return; }
	};
	rec();
}
// ---- part 2
enum { EPSR, DET, MIN, TRIM0, TRIM1, CLONE, SHUF, UNL, UNR, MERL, MERR, NP };
static const char *const pname[] = { "epsilons", "determinise", "minimise", "trim", "trim-ends", "clone", "shuffle", "union-left", "union-right", "merge-left", "merge-right" };
static Nfa other(int k) { Nfa b; b.add(k & 1); b.add(true); b.start = 0; b.lit(0, 1, 'a'); b.lit(1, 1, "bx"[k & 1]); if (k & 2) b.eps(0, 1); b.s[1].ids = {1000, 7}; if (k & 1) b.s[0].ids = {1, 1001}; return b; }
static bool step(struct fsm *&f, Nfa &w, int op, int k) {
	const char *nm = pname[op];
	switch (op) {
	case EPSR: if (!fsm_remove_epsilons(f)) return H.fail(nm, "failed"), false; break;
	case DET: if (!fsm_determinise(f)) return H.fail(nm, "failed"), false; break;
	case MIN: if (!fsm_minimise(f)) return H.fail(nm, "failed"), false; break;
	case TRIM0: case TRIM1: if (fsm_trim(f, op == TRIM0 ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, nullptr) < 0) return H.fail(nm, "failed"), false; break;
	case CLONE: { struct fsm *c = fsm_clone(f); if (!c) return H.fail(nm, "failed"), false; fsm_free(f); f = c; break; }
	case SHUF: if (!fsm_shuffle(f, k + 1)) return H.fail(nm, "failed"), false; break;
	case UNL: case UNR: { Nfa o = other(k); struct fsm *b = build(o), *r = op == UNL ? fsm_union(f, b, nullptr) : fsm_union(b, f, nullptr); if (!r) return H.fail(nm, "failed"), false; f = r; w = ref_union({&w, &o}); break; }
	case MERL: case MERR: { Nfa o = other(k); fsm_state_t st = 0; bool had = fsm_getstart(f, &st); struct fsm *b = build(o); struct fsm_combine_info ci; struct fsm *r = op == MERL ? fsm_merge(f, b, &ci) : fsm_merge(b, f, &ci); if (!r) return H.fail(nm, "failed"), false; f = r; if (had) fsm_setstart(f, st + (op == MERL ? ci.base_a : ci.base_b)); break; }
	}
	return true;
}
static void final_exec(struct fsm *f, const Nfa &w, int len) {
	if (!fsm_determinise(f)) { H.fail("determinise", "failed"); return; }
	unsigned char cls[256]; auto reps = byte_classes({&w}, cls); if (reps.size() > 5) reps.resize(5);
	all_strings(reps, len, [&](const std::string &s) {
		Ids ids; bool acc = ref_accepts(w, s, &ids); fsm_state_t e; int r = run_exec(f, s, &e); H.traces++;
		if (r != acc) { H.fail("exec", "on " + show(s) + fmt(": returned %d", r)); return false; }
		if (acc) { size_t c = fsm_endid_count(f, e); std::vector<fsm_end_id_t> v(c + 1); fsm_endid_get(f, e, c, v.data()); v.resize(c); std::vector<fsm_end_id_t> x(ids.begin(), ids.end()); if (v != x) { H.fail("exec-ids", "on " + show(s) + fmt(": %zu ids, want ", c) + show(ids)); return false; } }
		return true; });
}
static void pipelines(const Nfa &a, const std::string &name, int depth, int only_first = -1) {
	std::vector<int> seq; bool bin = name.size();
	std::function<void()> rec = [&]() {
		bool started = true; struct fsm *f = build(a); Nfa w = a; bool ok = true, dfa = is_dfa_shape(a); int nb = 0;
		H.cur = [&] { std::string s = (name.empty() ? a.str() : name) + " then"; for (int o : seq) s += fmt(" %s", pname[o]); return s; };
		for (size_t i = 0; i < seq.size() && ok; i++) { int o = seq[i]; ok = step(f, w, o, (int) i); if (o == DET) dfa = true; if (o == UNL || o == UNR || o == MERL || o == MERR || o == EPSR) { dfa = false; nb++; } }
		H.traces++; H.tick();
		if (ok) { Nfa g = extract(f); bool known = is_dfa_shape(g); if (dfa && !known && g.start >= 0) { H.fail("not-dfa", "not deterministic"); ok = false; } started = g.start >= 0; dfa = known && started;
			// ids have to be right for every string
			Diff d = compare(w, g, CMP_END | CMP_IDS, 20000); if (d.differ) { H.fail(seq.empty() ? "build" : pname[seq.back()], d.why); ok = false; } }
		bool leaf = (int) seq.size() == depth;
		if (ok && leaf && started && seq.back() != DET) final_exec(f, w, bin ? 3 : 4);
		fsm_free(f); if (!ok || leaf || H.stop()) return;
		for (int o = 0; o < NP; o++) {
			if (seq.empty() && only_first >= 0 && o != only_first) continue;
			if (o == MIN && !dfa) continue; // minimisation is of DFAs
			if (o == EPSR && !started) continue; // trimming an empty language away leaves no start state
			if (o >= UNL && nb >= 2) continue;
			if ((o == UNL || o == UNR) && !started) continue;
			if (!seq.empty() && seq.back() == o && o != UNL && o != UNR && o != MERL && o != MERR && o != SHUF && bin) continue;
			seq.push_back(o); rec(); seq.pop_back(); if (H.nfails > 20) return;
		}
	};
	rec();
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	// one case per first operation
	std::vector<int> st = { 0, 1, 2 }; int n1 = opset(st).size();
	for (int i = 0; i < n1; i++) { if (H.stop()) break; if (!H.take()) continue; if (!H.begin([&] { return fmt("id calls starting with op %d", i); })) continue; H.nontrivial++; sequences(3, 0, T ? 4 : 3, st, i); }
	for (int pre = 0; pre <= (T ? 140 : 40); pre++) for (int i = 0; i < 3; i++) { if (H.stop()) break; if (!H.take()) continue; if (!H.begin([&] { return fmt("id calls with %d states with ids, variant %d", pre, i); })) continue; H.nontrivial++; std::vector<int> s; s.push_back(pre); s.push_back(i == 0 ? 0 : i == 1 ? pre + 64 : pre + 1); sequences(std::max(s[0], s[1]) + 1, pre, 2, s, -1); }
	auto go = [&](Nfa a, const std::string &n, int d) { assign_ids(a, 1 + H.idx % 6); if (!H.begin([&] { return "pipelines from " + (n.empty() ? a.str() : n); })) return; if (!ref_empty(a)) H.nontrivial++; pipelines(a, n, d); };
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { go(a, "", lite ? 2 : 3); });
	enum_nfas(2, lite ? 1 : T ? 3 : 2, 2, true, [&](const Nfa &a) { go(a, "", T ? 3 : 2); });
	enum_nfas(2, 4, 2, true, [&](const Nfa &a) { if (!lite && (T || H.idx % 17 == 0)) go(a, "", T ? 3 : 2); }, false);
	enum_nfas(3, lite ? 1 : 3, 2, true, [&](const Nfa &a) { if (T || lite || H.idx % 17 == 0) go(a, "", 2); }, false);
	enum_families([&](const Nfa &a, const std::string &n) { if (ref_dfa(a, 500).n() && ref_dfa(ref_dfa(a, 500), 500).n()) go(a, n, 2); else H.counters["skipped_blowup"]++; }, T ? 300 : lite ? 34 : 70, false, 1);
	return H.finish();
}
