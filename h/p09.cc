// P09: eager outputs. (1) groups of patterns through fsm_union_repeated_pattern_group; (2) eager outputs carried through
// epsilon removal, determinisation and minimisation; (3) the accessors, against a map of sets.
#include "gen.h"
extern "C" {
#include <re/re.h>
}
static struct fsm *comp(const std::string &p, int flags) { const char *s = p.c_str(); struct re_err e; return re_comp(RE_PCRE, fsm_sgetc, &s, nullptr, (enum re_flags) flags, &e); }
static std::vector<std::string> pool_small() {
	std::vector<std::string> base = { "", "a", "b", "ab", "a?", "a*", "a+", "b+", "a|b", "ab*", "a+b", "ab?", "[ab]", ".", "a.", "(ab)+", "aa|b", "a(b|)", "ba", "a{2}" }, v;
	for (auto &b : base) for (int i = 0; i < 4; i++) { std::string x = b; if (i && b.find('|') != std::string::npos) x = "(" + b + ")"; v.push_back(std::string(i & 1 ? "^" : "") + x + (i & 2 ? "$" : "")); }
	for (auto s : { "^a|b", "a$|b", "^a|b$", "(^|b)a", "a($|b)", "^a|^b", "a$|b$", "(^a|b)c", "^(a|b$)", "a|^$", "^ab|b$", "(a|b$)|^c" }) v.push_back(s);
	return v;
}
static void cb_out(fsm_output_id_t id, void *o) { ((Ids *) o)->insert(id); }
// explore combined x reference machines; observation: which patterns are reported
static bool explore_group(const std::vector<Nfa> &refs, const Nfa &g, size_t base, const char *stage) {
	std::vector<const Nfa *> as; for (auto &r : refs) as.push_back(&r); as.push_back(&g);
	unsigned char cls[256]; auto reps = byte_classes(as, cls);
	std::vector<Sim> sims; for (auto &r : refs) sims.emplace_back(r, reps);
	Sim gs(g, reps); size_t k = refs.size();
	typedef std::vector<int> V; // sim states..., combined state, emitted mask
	std::vector<V> q; std::vector<std::pair<int, int>> par; std::map<V, int> seen;
	auto mask = [&](const Ids &s) { int m = 0; for (auto x : s) if (x >= base && x < base + k) m |= 1 << (x - base); else m |= 1 << 30; return m; };
	V s0; for (auto &s : sims) s0.push_back(s.start); s0.push_back(gs.start); s0.push_back(mask(gs.obs[gs.start].eager)); q.push_back(s0); par.push_back({-1, 0}); seen[s0] = 0;
	auto wit = [&](int i) { std::string s; while (par[i].first >= 0) { s += (char) reps[par[i].second]; i = par[i].first; } std::reverse(s.begin(), s.end()); return s; };
	for (size_t i = 0; i < q.size(); i++) {
		V v = q[i]; int want = 0; for (size_t j = 0; j < k; j++) if (sims[j].obs[v[j]].end) want |= 1 << j;
		bool acc = gs.obs[v[k]].end; int got = acc ? v[k + 1] | mask(gs.obs[v[k]].ids) : 0;
		if (got != want) { H.fail(stage, fmt("on %s: patterns reported %x, want %x", show(wit(i)).c_str(), got, want)); return false; }
		if (q.size() > 60000) { H.counters["product_capped"]++; break; }
		for (size_t r = 0; r < reps.size(); r++) {
			V t; for (size_t j = 0; j < k; j++) t.push_back(sims[j].step(v[j], r)); t.push_back(gs.step(v[k], r)); t.push_back(v[k + 1] | mask(gs.obs[t[k]].eager)); H.transitions++;
			if (seen.emplace(t, (int) q.size()).second) { q.push_back(t); par.push_back({(int) i, (int) r}); }
		}
	}
	H.states += q.size(); return true;
}
static void group(const std::vector<std::string> &pats, size_t base, int len) {
	if (!H.begin([&] { std::string s = fmt("patterns from id %zu:", base); for (auto &p : pats) s += " /" + p + "/"; return s; })) return;
	H.nontrivial++; size_t k = pats.size();
	std::vector<Nfa> refs, nf; std::vector<struct fsm *> fs;
	for (auto &p : pats) { struct fsm *f = comp(p, 0), *l = comp(p, RE_SAVE_LINKAGE_INFO); if (!f || !l) { if (f) fsm_free(f); if (l) fsm_free(l); for (auto x : fs) fsm_free(x); H.counters["unsupported"]++; return; } refs.push_back(extract(f)); nf.push_back(extract(l)); fs.push_back(l); fsm_free(f); }
	std::vector<struct fsm_combined_base_pair> bases(k); struct fsm *f = fsm_union_repeated_pattern_group(k, fs.data(), bases.data(), base);
	if (!f) { H.fail("group", "failed"); return; }
	Nfa u = extract(f);
	for (size_t i = 0; i < k; i++) { // the operand's states are where its base says: its transitions are there
		std::set<int> missing; bool ok = bases[i].state + nf[i].n() <= u.n();
		for (size_t s = 0; ok && s < nf[i].n(); s++) { auto &x = nf[i].s[s]; auto &y = u.s[s + bases[i].state]; std::set<int> ep(y.eps.begin(), y.eps.end()); std::map<int, Bytes> m; for (auto &e : y.e) m[e.second] |= e.first;
			for (int t : x.eps) if (!ep.count(t + (int) bases[i].state)) ok = false; for (auto &e : x.e) if ((m[e.second + bases[i].state] & e.first) != e.first) missing.insert(e.second); }
		if (!ok || missing.size() > 1) { H.fail("group-bases", fmt("pattern %zu's states are not at its base %u", i, bases[i].state)); break; }
	}
	uint64_t nfl = H.nfails;
	if (explore_group(refs, u, base, "group-nfa")) {
		if (!fsm_determinise(f)) H.fail("determinise", "failed"); else if (explore_group(refs, extract(f), base, "group-determinise")) {
			if (!fsm_minimise(f)) H.fail("minimise", "failed"); else if (explore_group(refs, extract(f), base, "group-minimise") && H.nfails == nfl) {
				Ids out; fsm_eager_output_set_cb(f, cb_out, &out); fsm_state_t st;
				if (fsm_getstart(f, &st)) all_strings({'a', 'b', '\n', 'x'}, len, [&](const std::string &s) {
					out.clear(); fsm_state_t e; int r = run_exec(f, s, &e); Ids want, got; H.traces++; for (size_t j = 0; j < k; j++) if (ref_accepts(refs[j], s)) want.insert(base + j);
					if (r == 1) { got = out; size_t c = fsm_endid_count(f, e); std::vector<fsm_end_id_t> v(c + 1); fsm_endid_get(f, e, c, v.data()); got.insert(v.begin(), v.begin() + c); }
					if (got != want) { H.fail("group-exec", "on " + show(s) + ": " + show(got) + ", want " + show(want)); return false; }
					return true; });
			} } }
	fsm_free(f);
}
// ---- part 2: outputs reported so far, along every input which can still match
static bool cumulative(const Nfa &a, const Nfa &g, const char *stage) {
	unsigned char cls[256]; auto reps = byte_classes({&a, &g}, cls); Sim x(a, reps), y(g, reps);
	// which subsets of a can still match
	for (size_t i = 0; i < x.sets.size(); i++) { for (size_t r = 0; r < reps.size(); r++) x.step(i, r); if (x.sets.size() > 5000) return true; }
	size_t n = x.sets.size(); std::vector<char> live(n, 0); for (size_t i = 0; i < n; i++) live[i] = x.obs[i].end; for (bool ch = true; ch; ) { ch = false; for (size_t i = 0; i < n; i++) if (!live[i]) for (int t : x.next[i]) if (live[t]) { live[i] = ch = true; break; } }
	struct S { int x, y; Ids p, q; bool operator<(const S &o) const { return std::tie(x, y, p, q) < std::tie(o.x, o.y, o.p, o.q); } };
	std::set<S> seen; std::vector<S> q; S s0{x.start, y.start, x.obs[x.start].eager, y.obs[y.start].eager}; if (!live[s0.x]) return true; q.push_back(s0); seen.insert(s0);
	for (size_t i = 0; i < q.size() && q.size() < 20000; i++) { S s = q[i];
		if (s.p != s.q) { H.fail(stage, "outputs so far " + show(s.q) + ", want " + show(s.p)); return false; }
		for (size_t r = 0; r < reps.size(); r++) { S t{x.step(s.x, r), y.step(s.y, r), s.p, s.q}; H.transitions++; if (!live[t.x]) continue; auto &e = x.obs[t.x].eager, &f = y.obs[t.y].eager; t.p.insert(e.begin(), e.end()); t.q.insert(f.begin(), f.end()); if (seen.insert(t).second) q.push_back(t); } }
	H.states += q.size(); return true;
}
static void eager_ids(Nfa &a, int how) {
	for (size_t i = 0; i < a.n(); i++) switch (how) {
	case 0: a.s[i].eager = { i }; break; case 1: if (a.s[i].end) a.s[i].eager = { 7 }; break; case 2: if (i % 2) a.s[i].eager = { i % 3, 9, 4294967295u }; break;
	case 3: if (!a.s[i].end) for (int j = 0; j < 3 + (int) i % 7; j++) a.s[i].eager.insert((i * 5 + j * 7) % 20); break; case 4: if ((int) i == a.start) a.s[i].eager = { 1, 2 }; break; }
}
static void carry(Nfa a, const std::string &name) {
	eager_ids(a, H.idx % 5); if (!H.begin([&] { return "carry: " + (name.empty() ? a.str() : name); })) return; if (!ref_empty(a)) H.nontrivial++;
	struct fsm *f = build(a), *c = fsm_clone(f); bool ok = cumulative(a, extract(c), "clone");
	if (!fsm_remove_epsilons(c)) H.fail("epsilons", "failed"); else ok = ok && cumulative(a, extract(c), "epsilons");
	if (!fsm_determinise(f)) H.fail("determinise", "failed"); else { ok = ok && cumulative(a, extract(f), "determinise"); if (fsm_minimise(f)) ok = ok && cumulative(a, extract(f), "minimise"); else H.fail("minimise", "failed"); }
	if (ok) { Ids out; fsm_eager_output_set_cb(f, cb_out, &out); fsm_state_t st; unsigned char cls[256]; auto reps = byte_classes({&a}, cls); if (reps.size() > 4) reps.resize(4);
		Nfa g = extract(f); if (g.start >= 0) all_strings(reps, 3, [&](const std::string &s) { out.clear(); fsm_state_t e; int r = run_exec(f, s, &e); H.traces++; int q = g.start; Ids want = g.s[q].eager; for (unsigned char ch : s) { int t = -1; for (auto &ed : g.s[q].e) if (ed.first[ch]) t = ed.second; q = t; if (q < 0) break; want.insert(g.s[q].eager.begin(), g.s[q].eager.end()); }
			if (out != want) { H.fail("exec", "on " + show(s) + ": outputs " + show(out) + ", want " + show(want)); return false; } (void) r; return true; }); }
	fsm_free(f); fsm_free(c);
}
// ---- part 3
static void accessors(int nstates, int prefill, int depth) {
	if (!H.begin([&] { return fmt("eager output calls on %d states, %d with outputs", nstates, prefill); })) return; H.nontrivial++;
	struct Op { int s; unsigned v; }; std::vector<Op> ops, seq; for (int s : std::set<int>{0, nstates / 2, nstates - 1}) for (unsigned v : { 0u, 5u, 0xffffffffu, 3u }) ops.push_back({s, v}); ops.push_back({-1, 6});
	std::function<void()> rec = [&]() {
		struct fsm *f = fsm_new(nullptr); fsm_addstate_bulk(f, nstates); for (int i = 0; i < nstates; i += 2) fsm_setend(f, i, 1); std::map<int, Ids> m; for (int i = 0; i < prefill; i++) { fsm_eager_output_set(f, i, i + 50); m[i].insert(i + 50); }
		bool ok = true; for (auto &o : seq) { if (o.s < 0) { if (!fsm_eager_output_set_on_ends(f, o.v)) H.fail("set-on-ends", "failed"); for (int i = 0; i < nstates; i += 2) m[i].insert(o.v); } else { if (!fsm_eager_output_set(f, o.s, o.v)) H.fail("set", "failed"); m[o.s].insert(o.v); } }
		for (int i = 0; i < nstates && ok; i++) { size_t c = fsm_eager_output_count(f, i); std::vector<unsigned> w(m[i].begin(), m[i].end()), g(c + 1, 77); if (c != w.size()) { H.fail("count", fmt("state %d: %zu, want %zu", i, c, w.size())); ok = false; break; }
			if (!fsm_eager_output_get(f, i, c, g.data())) { H.fail("get", "failed"); ok = false; } if (g[c] != 77) { H.fail("get-over", "wrote too far"); ok = false; } g.resize(c); if (g != w) { H.fail("get", fmt("state %d", i)); ok = false; }
			if (c) { std::vector<unsigned> h(c + 1, 77); if (fsm_eager_output_get(f, i, c - 1, h.data())) { H.fail("get-small", "succeeded with too small a buffer"); ok = false; } if (h[c - 1] != 77) { H.fail("get-over", "wrote beyond the buffer"); ok = false; } } }
		H.traces++; H.tick(); fsm_free(f); if (!ok || (int) seq.size() == depth) return; for (auto &o : ops) { seq.push_back(o); rec(); seq.pop_back(); if (H.nfails > 10) return; }
	};
	rec();
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	auto P = pool_small();
	for (auto &p : P) { if (H.stop()) break; if (H.take()) group({p}, 1, 5); }
	for (auto &p : P) for (auto &q : P) { if (H.stop()) break; if (H.take()) group({p, q}, H.idx % 3, T ? 5 : 3); }
	std::vector<std::string> Q; for (size_t i = 0; i < P.size(); i += T ? 3 : 6) Q.push_back(P[i]); for (auto s : { "^a|b", "ab$", "^", "a+", "(^|b)a" }) Q.push_back(s);
	for (auto &p : Q) for (auto &q : Q) for (auto &r : Q) { if (H.stop()) break; if (H.take()) group({p, q, r}, 1, 3); }
	// groups of many patterns, so that operands are placed either way round
	for (int k = 2; k <= 12; k++) for (int v = 0; v < 4; v++) { if (H.stop()) break; if (!H.take()) continue; std::vector<std::string> g; for (int i = 0; i < k; i++) { std::string s; int len = v == 0 ? i : v == 1 ? k - i : v == 2 ? i * 9 : (i % 3) * 40; for (int j = 0; j <= len; j++) s += "ab"[(i + j * j) % 2]; g.push_back((i % 4 == 1 ? "^" : "") + s + (i % 5 == 2 ? "$" : "")); } group(g, 1, 3); }
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { carry(a, ""); });
	enum_nfas(2, T ? 6 : 4, 2, true, [&](const Nfa &a) { carry(a, ""); }, false);
	enum_nfas(3, T ? 4 : 3, 2, true, [&](const Nfa &a) { if (T || H.idx % 3 == 0) carry(a, ""); }, false);
	enum_families([&](const Nfa &a, const std::string &n) { if (ref_dfa(a, 400).n()) carry(a, n); else H.counters["skipped_blowup"]++; }, T ? 300 : 130, false, T ? 4 : 1);
	for (int n = 1; n <= (T ? 80 : 40); n++) for (int k = 0; k < 3; k++) { if (H.stop()) break; if (H.take()) accessors(n, k == 0 ? 0 : k == 1 ? n / 2 : n, n < 8 ? 3 : 2); }
	return H.finish();
}
