// P03: Boolean set operations compute the right language.
#include "gen.h"

// is `a` embedded in `r` at offset base: same edges, ends and ids, and nothing leaving for elsewhere?
static bool embedded(const Nfa &a, const Nfa &r, size_t base, std::string *why) {
	if (base + a.n() > r.n()) { *why = fmt("base %zu + %zu states > %zu", base, a.n(), r.n()); return false; }
	for (size_t i = 0; i < a.n(); i++) {
		auto &x = a.s[i], &y = r.s[base + i];
		std::map<int, Bytes> ex, ey; for (auto &e : x.e) ex[e.second + (int) base] |= e.first; for (auto &e : y.e) ey[e.second] |= e.first;
		std::set<int> px, py; for (int t : x.eps) px.insert(t + (int) base); for (int t : y.eps) py.insert(t);
		if (x.end != y.end || (x.end && x.ids != y.ids) || ex.size() != ey.size() || px != py) { *why = fmt("state %zu at base %zu differs", i, base); return false; }
		for (auto &e : ex) if (!ey.count(e.first) || ey[e.first] != e.second) { *why = fmt("edges of state %zu at base %zu differ", i, base); return false; }
	}
	return true;
}
static void judge(struct fsm *q, const Nfa &want, const char *op, int what) {
	Nfa g = extract(q);
	Diff x = compare(want, g, what);
	if (x.differ) H.fail(op, x.why);
}
static void pair(const Nfa &a, const Nfa &b, const std::string &name) {
	if (!H.begin([&] { return name.empty() ? a.str() + "  WITH  " + b.str() : name; })) return;
	if (!ref_empty(a) && !ref_empty(b)) H.nontrivial++;
	bool hs = a.start >= 0 && b.start >= 0;
	{
		struct fsm_combine_info ci; struct fsm *fa = build(a), *fb = build(b), *q = fsm_union(fa, fb, (H.idx & 1) ? &ci : nullptr);
		if (!q) { if (hs) H.fail("union-refused", "returned NULL"); fsm_free(fa); fsm_free(fb); }
		else {
			judge(q, ref_union({&a, &b}), "union", CMP_END | CMP_IDS); std::string why;
			if (H.idx & 1) { Nfa g = extract(q);
				if (!embedded(a, g, ci.base_a, &why)) H.fail("union-base-a", why);
				if (!embedded(b, g, ci.base_b, &why)) H.fail("union-base-b", why); }
			fsm_free(q);
		}
	}
	for (int op = 0; op < 2; op++) {
		struct fsm *fa = build(a), *fb = build(b), *q = op ? fsm_subtract(fa, fb) : fsm_intersect(fa, fb);
		const char *nm = op ? "subtract" : "intersect";
		if (!q) { if (hs) H.fail(std::string(nm) + "-refused", "returned NULL"); fsm_free(fa); fsm_free(fb); continue; }
		Nfa g = extract(q), want = ref_product(a, b, op ? [](bool x, bool y) { return x && !y; } : [](bool x, bool y) { return x && y; });
		Diff x = compare(want, g, CMP_END | (op ? 0 : CMP_IDS)); if (x.differ) H.fail(nm, x.why);
		if (op) { // ids of the difference are those of the first operand
			Nfa b2 = b; for (auto &s : b2.s) s.ids.clear(); want = ref_product(a, b2, [](bool x, bool y) { return x && !y; });
			x = compare(want, g, CMP_END | CMP_IDS); if (x.differ) H.fail("subtract-ids", x.why);
		}
		fsm_free(q);
	}
}
static void single(const Nfa &a, const std::string &name) {
	if (!H.begin([&] { return "single " + (name.empty() ? a.str() : name); })) return;
	if (!ref_empty(a)) H.nontrivial++;
	if (a.start >= 0) {
		struct fsm *f = build(a); int r = fsm_complement(f);
		if (!r) H.fail("complement-refused", "returned 0");
		else {
			Nfa none; none.start = none.add();
			judge(f, ref_product(a, none, [](bool x, bool) { return !x; }), "complement", CMP_END);
			// complement again
			if (!fsm_complement(f)) H.fail("complement2-refused", "returned 0");
			else { judge(f, a, "complement2", CMP_END); fsm_free(f); }
		}
	}
	static const struct { const char *nm; std::string cs; } sets[] = { {"none", ""}, {"a", "a"}, {"ab", "ab"}, {"00", std::string("\0", 1)}, {"aff", "a\xff\x80"}, {"dup", "aabbaa"}, {"3f40", "\x3f\x40\x7f"} };
	for (auto &cs : sets) {
		struct fsm *f = build(a);
		if (!fsm_determinise(f)) { fsm_free(f); H.fail("det", "failed"); return; }
		if (a.start < 0) { fsm_free(f); break; }
		struct fsm *q = fsm_intersect_charset(f, cs.cs.size(), cs.cs.data());
		if (!q) { H.fail("charset-refused", "returned NULL"); fsm_free(f); continue; }
		Bytes m; for (unsigned char c : cs.cs) m.set(c);
		Nfa w = a; for (auto &s : w.s) for (auto &e : s.e) e.first &= m;
		judge(q, w, "charset", CMP_END | CMP_IDS);
		fsm_free(q);
	}
	{
		struct fsm *f = build(a); bool dfa = fsm_determinise(f); 
		if (dfa && a.start >= 0) { struct fsm *q = fsm_intersect_charset(f, 0, NULL); if (q != f) H.fail("charset-null", "a NULL charset is no restriction"); else judge(q, a, "charset-null", CMP_END | CMP_IDS); }
		fsm_free(f);
	}
}
static void array(const std::vector<Nfa> &v) {
	if (!H.begin([&] { std::string s = "array"; for (auto &a : v) s += "  " + a.str(); return s; })) return;
	H.nontrivial++;
	std::vector<struct fsm *> fs; std::vector<const Nfa *> ps; for (auto &a : v) { fs.push_back(build(a)); ps.push_back(&a); }
	std::vector<struct fsm_combined_base_pair> bases(v.size()); bool nb = H.idx % 3 == 0;
	struct fsm *q = fsm_union_array(v.size(), fs.data(), nb ? nullptr : bases.data());
	if (!q) { H.fail("array-refused", "returned NULL"); return; }
	judge(q, ref_union(ps), "union_array", CMP_END | CMP_IDS);
	if (!nb) { Nfa g = extract(q); std::string why; for (size_t i = 0; i < v.size(); i++) if (!embedded(v[i], g, bases[i].state, &why)) { H.fail("union_array-base", fmt("operand %zu: ", i) + why); break; } }
	fsm_free(q);
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool T = H.thorough;
	// family members against each other, in sizes which cross the walk's tuple pool and the state allocation
	int fs[] = { 0, 1, 4, 5, 7, 8, 10, 11, 13, 19, 20, 22, 2 };
	std::vector<int> ns = T ? std::vector<int>{ 1, 2, 3, 5, 8, 17, 33, 37, 41, 64, 128 } : std::vector<int>{ 1, 3, 8, 33, 37 };
	for (int f : fs) for (int N : ns) if (N <= family_max[f]) for (int g : fs) for (int M : ns) if (M <= family_max[g]) {
		if (H.stop()) break;
		if (!H.take()) continue;
		Nfa a = family(f, N), b = family(g, M); permute(a, N % 4); permute(b, (M + 1) % 4);
		if ((size_t) ref_dfa(a).n() * ref_dfa(b).n() > (T ? 40000u : 4000u)) { H.counters["pairs_too_big"]++; continue; }
		assign_ids(a, 1 + N % 4); assign_ids(b, 1 + (M + 2) % 4);
		pair(a, b, fmt("%s(%d) WITH %s(%d)", family_name[f], N, family_name[g], M));
	}
	std::vector<Nfa> small = collect(1, 3, 2, true), two = collect(2, T ? 3 : 2, 2, true);
	Nfa nostart = two[17]; nostart.start = -1; Nfa nothing;
	std::vector<Nfa> dfa3;  { auto all = collect(3, 2, 2, false, false); for (size_t i = 0; i < all.size(); i += T ? 1 : 5) dfa3.push_back(all[i]); }
	auto ids = [&](Nfa a, int k) { assign_ids(a, k); return a; };
	std::vector<Nfa> all = small; all.insert(all.end(), two.begin(), two.end());
	for (auto &a : all) for (auto &b : all) { if (H.stop()) break; if (!H.take()) continue; pair(ids(a, H.idx % 5), ids(b, H.idx / 5 % 5), ""); }
	for (auto &a : dfa3) for (auto &b : two) { if (H.stop()) break; if (!H.take()) continue; pair(ids(a, H.idx % 5), ids(b, H.idx / 5 % 5), ""); pair(ids(b, H.idx % 5), ids(a, H.idx / 5 % 5), ""); }
	for (auto &a : { nostart, nothing }) for (auto &b : all) { if (!H.take()) continue; if (!is_dfa_shape(a)) continue;  pair(a, b, ""); pair(b, a, ""); }
	for (auto &a : all) { if (!H.take()) continue; single(ids(a, H.idx % 5), ""); }
	enum_nfas(3, 3, 2, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); }, false);
	if (T) enum_nfas(3, 4, 2, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); }, false);
	enum_families([&](const Nfa &a, const std::string &n) { single(ids(a, H.idx % 5), n); }, T ? 400 : 130, false, 2);
	// arrays: every order of sizes matters, as the larger operand's states come first
	std::vector<Nfa> pool = { small[1], small[5], two[50], two[101], two[203], family(0, 4), family(4, 3), family(2, 6), family(1, 130), family(5, 20) };
	for (size_t i = 0; i < pool.size(); i++) pool[i] = ids(pool[i], 1 + i % 4);
	int P = pool.size();
	for (int a = 0; a < P; a++) { if (H.take()) array({pool[a]}); for (int b = 0; b < P; b++) { if (H.take()) array({pool[a], pool[b]}); for (int c = 0; c < P; c++) { if (H.take()) array({pool[a], pool[b], pool[c]}); if (T || (a + b + c) % 3 == 0) for (int d = 0; d < P; d++) if (H.take()) array({pool[a], pool[b], pool[c], pool[d]}); } } }
	return H.finish();
}
