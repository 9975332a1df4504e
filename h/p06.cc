// P06: fsm_equal and fsm_empty answer exactly, and leave their arguments alone.
#include "gen.h"
static bool same(const Nfa &a, const Nfa &b) {
	if (a.n() != b.n() || a.start != b.start) return false;
	for (size_t i = 0; i < a.n(); i++) {
		auto &x = a.s[i], &y = b.s[i]; std::map<int, Bytes> p, q; for (auto &e : x.e) p[e.second] |= e.first; for (auto &e : y.e) q[e.second] |= e.first;
		std::set<int> u(x.eps.begin(), x.eps.end()), v(y.eps.begin(), y.eps.end());
		if (p.size() != q.size() || u != v || x.end != y.end || x.ids != y.ids || x.eager != y.eager) return false;
		for (auto &e : p) if (!q.count(e.first) || q[e.first] != e.second) return false;
	}
	return true;
}
static void pair(const Nfa &a, const Nfa &b, const std::string &name) {
	if (!H.begin([&] { return name.empty() ? a.str() + "  VS  " + b.str() : name; })) return;
	Diff d = compare(a, b, CMP_END); if (d.capped) return;
	if (!d.differ) H.nontrivial++;
	H.counters[d.differ ? "unequal" : "equal"]++;
	struct fsm *fa = build(a), *fb = build(b);
	for (int k = 0; k < 2; k++) {
		int r = k ? fsm_equal(fb, fa) : fsm_equal(fa, fb);
		if (r != !d.differ) H.fail(k ? "equal-swapped" : "equal", fmt("answered %d, want %d %s", r, !d.differ, d.why.c_str()));
	}
	if (!same(a, extract(fa)) || !same(b, extract(fb))) H.fail("equal-modified", "an argument was modified");
	fsm_free(fa); fsm_free(fb);
}
static void single(const Nfa &a, const std::string &name) {
	if (!H.begin([&] { return "empty? " + (name.empty() ? a.str() : name); })) return;
	struct fsm *f = build(a); bool e = ref_empty(a); H.nontrivial += e;
	int r = fsm_empty(f); if (r != e) H.fail("empty", fmt("answered %d, want %d", r, e));
	r = fsm_equal(f, f); if (r != 1) H.fail("equal-self", fmt("answered %d", r));
	if (!same(a, extract(f))) H.fail("empty-modified", "the argument was modified");
	struct fsm *c = fsm_clone(f); if (fsm_determinise(c)) { r = fsm_equal(f, c); if (r != 1) H.fail("equal-dfa", fmt("answered %d", r)); if (fsm_empty(c) != e) H.fail("empty-dfa", "differs"); if (fsm_minimise(c)) { if (c) { fsm_state_t s; if (fsm_getstart(c, &s)) { r = fsm_equal(c, f); if (r != 1) H.fail("equal-min", fmt("answered %d", r)); if (fsm_empty(c) != e) H.fail("empty-min", "differs"); } else if (!e) H.fail("min-nostart", "no start state"); } } }
	fsm_free(c); fsm_free(f);
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	std::vector<Nfa> all = collect(1, 3, 2, true), two = collect(2, T ? 3 : 2, 2, true); size_t n1 = all.size(); (void) n1;
	all.insert(all.end(), two.begin(), two.end());
	for (auto &a : all) for (auto &b : all) { if (H.stop()) break; if (!H.take()) continue; Nfa x = a, y = b; assign_ids(x, H.idx % 3); pair(x, y, ""); }
	std::vector<Nfa> three = collect(3, 2, 1, true, false);
	for (auto &a : three) for (size_t j = 0; j < three.size(); j += T ? 1 : 7) { if (H.stop()) break; if (!H.take()) continue; pair(a, three[j], ""); }
	enum_nfas(3, T ? 5 : 3, 2, true, [&](const Nfa &a) { single(a, ""); });
	enum_nfas(4, T ? 3 : 2, 2, true, [&](const Nfa &a) { single(a, ""); });
	enum_families([&](const Nfa &a, const std::string &n) { single(a, n); }, T ? 400 : 260, false, 2);
	// a family member against itself in another state order, its determinised form, and with one thing changed
	for (int f = 0; f < NFAMILY; f++) for (int N : sweep(std::min(T ? 300 : 130, family_max[f]), false)) for (int k = 0; k < 8; k++) {
		if (H.stop()) break;
		if (!H.take()) continue;
		Nfa a = family(f, N), b = a; size_t n = a.n(); if (!n) continue; std::string how;
		switch (k) {
		case 0: permute(b, 1 + N % 3); how = "renumbered"; break;
		case 1: b = ref_trim(ref_dfa(a, 2000)); if (!b.n()) continue; how = "as a DFA"; break;
		case 2: b.s[n - 1].end = !b.s[n - 1].end; how = "last end flipped"; break;
		case 3: b.s[n / 2].end = !b.s[n / 2].end; how = "middle end flipped"; break;
		case 4: { size_t i = n - 1; while (i > 0 && b.s[i].e.empty()) i--; if (b.s[i].e.empty()) continue; b.s[i].e.pop_back(); how = "an edge removed"; break; }
		case 5: b.lit(n - 1, 0, 0xff); how = "an edge on ff added"; break;
		case 6: b.eps(n / 2, n - 1); how = "an epsilon added"; break;
		case 7: b.lit(n / 2, n / 3, 0x00); b.add(true); how = "an edge on 00 and an unreachable end added"; break;
		}
		if (k && N % 2) permute(b, 3);
		// leave out pairs whose subset constructions blow up
		Nfa da = ref_dfa(a, 2000), db = ref_dfa(b, 2000);
		if (!da.n() || !db.n() || (long) da.n() * db.n() > (T ? 400000 : 100000)) { H.counters["skipped_blowup"]++; continue; }
		pair(a, b, fmt("%s(%d) VS itself %s", family_name[f], N, how.c_str()));
	}
	return H.finish();
}
