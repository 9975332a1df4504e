// P04: concatenation, reversal and completion compute the right language.
#include "gen.h"

static void judge(struct fsm *q, const Nfa &want, const std::string &op, int what) {
	Nfa g = extract(q);
	Diff x = compare(want, g, what, 8000);
	if (x.differ) H.fail(op, x.why);
}
// determinise unless that is exponential
static bool det(struct fsm *f) { struct fsm_determinise_config c; memset(&c, 0, sizeof c); c.state_limit = 3000;
	auto r = fsm_determinise_with_config(f, &c); if (r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) { H.counters["determinise_too_big"]++; return false; }
	if (r != FSM_DETERMINISE_WITH_CONFIG_OK) { H.fail("determinise", "failed"); return false; } return true; }
static void pair(const Nfa &a, const Nfa &b, const std::string &name) {
	if (!H.begin([&] { return "concat " + (name.empty() ? a.str() + "  WITH  " + b.str() : name); })) return;
	if (!ref_empty(a) && !ref_empty(b)) H.nontrivial++;
	bool ends = false; for (auto &s : a.s) ends |= s.end;
	struct fsm_combine_info ci; memset(&ci, 0x55, sizeof ci);
	bool useci = H.idx % 3 != 0;
	struct fsm *fa = build(a), *fb = build(b), *q = fsm_concat(fa, fb, useci ? &ci : nullptr);
	if (!q) {
		// the one refusal allowed: there is nothing to join
		if (ends && a.start >= 0 && b.start >= 0) H.fail("concat-refused", "returned NULL");
		fsm_free(fa); fsm_free(fb); return;
	}
	Nfa want = ref_concat(a, b);
	judge(q, want, "concat", CMP_END | CMP_IDS);
	if (useci) {
		Nfa g = extract(q);
		Nfa rb = g; rb.start = (int) ci.base_b + b.start;
		if (rb.start >= (int) g.n()) H.fail("concat-base-b", "base out of range");
		else { Diff x = compare(b, rb, CMP_END | CMP_IDS, 8000); if (x.differ) H.fail("concat-base-b", x.why); }
		Nfa ra = g; ra.start = (int) ci.base_a + a.start;
		if (ra.start >= (int) g.n()) H.fail("concat-base-a", "base out of range");
		else { Diff x = compare(want, ra, CMP_END | CMP_IDS, 8000); if (x.differ) H.fail("concat-base-a", x.why); }
	}
	if (H.idx % 2) { if (det(q)) judge(q, want, "concat-determinise", CMP_END | CMP_IDS); }
	fsm_free(q);
}
static void single(const Nfa &a, const std::string &name) {
	if (!H.begin([&] { return "single " + (name.empty() ? a.str() : name); })) return;
	if (!ref_empty(a)) H.nontrivial++;
	struct fsm *f = build(a);
	if (!fsm_reverse(f)) H.fail("reverse-refused", "returned 0");
	else {
		Nfa r = ref_reverse(a);
		if (a.start < 0) { r = Nfa(); r.start = r.add(); }
		judge(f, r, "reverse", CMP_END);
		struct fsm *g = fsm_clone(f);
		if (!fsm_reverse(f)) H.fail("reverse2-refused", "returned 0"); else judge(f, a, "reverse2", CMP_END);
		if (det(g)) {
			judge(g, r, "reverse-determinise", CMP_END);
			// Brzozowski: reverse, determinise, twice gives the minimal machine
			if (!fsm_reverse(g)) H.fail("brzozowski", "failed");
			else if (det(g)) judge(g, a, "brzozowski", CMP_END);
		}
		fsm_free(g);
	}
	fsm_free(f);
	if (a.start < 0) return;
	for (int p = 0; p < 3; p++) {
		static int (*const preds[])(const struct fsm *, fsm_state_t) = { fsm_isany, fsm_isend, fsm_hasoutgoing };
		static const char *const nm[] = { "complete-any", "complete-end", "complete-outgoing" };
		f = build(a);
		if (p && !is_dfa_shape(a)) { if (!fsm_determinise(f)) H.fail("determinise", "failed"); }
		std::vector<char> sel; if (is_dfa_shape(extract(f))) for (size_t i = 0; i < fsm_countstates(f); i++) sel.push_back(preds[p](f, i) != 0);
		if (!fsm_complete(f, preds[p])) { H.fail(nm[p], "returned 0"); continue; }
		Nfa g = extract(f); std::string why;
		judge(f, a, nm[p], CMP_END | CMP_IDS);
		if (!is_dfa_shape(g, &why)) H.fail(std::string(nm[p]) + "-shape", why);
		for (size_t i = 0; i < g.n(); i++) {
			bool must = p == 0 || (i < sel.size() && sel[i]);
			Bytes m; for (auto &e : g.s[i].e) m |= e.first;
			if (must && !m.all()) { H.fail(std::string(nm[p]) + "-incomplete", fmt("state %zu lacks a transition", i)); break; }
			if (must != (fsm_iscomplete(f, i) != 0) && must) { H.fail(std::string(nm[p]) + "-pred", fmt("fsm_iscomplete(%zu) is false", i)); break; }
		}
		fsm_free(f);
	}
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool T = H.thorough;
	int fs[] = { 0, 1, 2, 3, 4, 5, 7, 11, 13, 14, 19, 20, 22 };
	std::vector<int> ns = T ? std::vector<int>{ 1, 2, 3, 5, 8, 16, 17, 64, 128, 129, 200 } : std::vector<int>{ 1, 2, 7, 65, 129 };
	auto ids = [&](Nfa a, int k) { assign_ids(a, k); return a; };
	for (int f : fs) for (int N : ns) if (N <= family_max[f]) for (int g : fs) for (int M : ns) if (M <= family_max[g]) {
		if (H.stop()) break;
		if (!H.take()) continue;
		Nfa a = family(f, N), b = family(g, M); permute(a, N % 4); permute(b, (M + 1) % 4);
		unsigned char cls[256]; auto reps = byte_classes({&a, &b}, cls);
		if ((f == 1 || f == 7 || f == 11 || f == 14 || f == 22) && N > 20 && M > 20) { H.counters["pairs_too_big"]++; continue; }
		assign_ids(a, 1 + N % 4); assign_ids(b, 1 + (M + 2) % 4);
		pair(a, b, fmt("%s(%d) WITH %s(%d)", family_name[f], N, family_name[g], M));
	}
	std::vector<Nfa> small = collect(1, 3, 2, true), two = collect(2, T ? 3 : 2, 2, true);
	std::vector<Nfa> all = small; all.insert(all.end(), two.begin(), two.end());
	for (auto &a : all) for (auto &b : all) { if (H.stop()) break; if (!H.take()) continue; pair(ids(a, H.idx % 5), ids(b, H.idx / 5 % 5), ""); }
	{ auto three = collect(3, 2, 1, true, false); for (auto &a : three) for (auto &b : small) { if (H.stop()) break; if (!H.take()) continue; pair(ids(a, H.idx % 5), ids(b, H.idx / 5 % 5), ""); pair(ids(b, H.idx % 5), ids(a, H.idx / 5 % 5), ""); } }
	for (auto a : all) { if (!H.take()) continue; a.start = -1; single(a, ""); }
	// a machine with no states at all stands for "nothing concatenated yet"
	for (auto a : all) for (int side = 0; side < 2; side++) {
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("stateless %s: ", side ? "second" : "first") + a.str(); })) continue;
		struct fsm *e = fsm_new(nullptr), *f = build(a); struct fsm_combine_info ci; memset(&ci, 0x55, sizeof ci);
		struct fsm *q = side ? fsm_concat(f, e, &ci) : fsm_concat(e, f, &ci);
		if (!q) { H.fail("concat-stateless", "refused"); continue; }
		judge(q, a, "concat-stateless", CMP_END | CMP_IDS);
		if (ci.base_a || ci.base_b) H.fail("concat-stateless-base", "bases are not 0");
		fsm_free(q);
	}
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); });
	enum_nfas(2, T ? 8 : 5, 2, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); });
	enum_nfas(3, T ? 4 : 3, 2, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); }, false);
	enum_nfas(3, T ? 5 : 4, 2, false, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); }, false);
	enum_nfas(4, T ? 4 : 3, 1, true, [&](const Nfa &a) { single(ids(a, H.idx % 5), ""); }, false);
	enum_families([&](const Nfa &a, const std::string &n) { if (a.n() > 12 && (n.find("mesh") == 0 || n.find("lcg") == 0 || n.find("overlap") == 0 || n.find("nth") == 0 || n.find("bytefan-") == 0 || n.find("nested") == 0)) { H.counters["reverse_too_big"]++; return; } single(ids(a, H.idx % 5), n); }, T ? 400 : 260, false, 2);
	return H.finish();
}
