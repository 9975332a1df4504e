// P01: determinisation and epsilon removal preserve the language.
#include "gen.h"

static void check_dfa_result(struct fsm *f, const Nfa &a, const char *op) {
	Nfa d = extract(f); std::string why;
	if (d.start < 0 && !ref_empty(a)) H.fail(op, "result has no start state");
	if (!is_dfa_shape(d, &why)) H.fail(std::string(op) + "-shape", "not deterministic: " + why);
	if (!fsm_all(f, fsm_isdfa)) H.fail(std::string(op) + "-isdfa", "fsm_isdfa is false for some state");
	Diff x = compare(a, d, CMP_END);
	if (x.differ) H.fail(std::string(op) + "-language", x.why);
	// conformance of what was read back: run the strings
	if (d.start < 0) return;
	unsigned char cls[256]; auto reps = byte_classes({&a, &d}, cls);
	if (reps.size() > 6) reps.resize(6);
	int len = a.n() > 12 ? 3 : 5; if (reps.size() > 4) len--;
	all_strings(reps, len, [&](const std::string &s) {
		fsm_state_t e; int r = run_exec(f, s, &e); H.traces++;
		bool want = ref_accepts(a, s);
		if (r < 0 || (r == 1) != want) { H.fail(std::string(op) + "-exec", "fsm_exec on " + show(s) + fmt(" returned %d, want %d", r, want)); return false; }
		return true;
	});
}

static void one(const Nfa &a, const std::string &name, bool limits) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	if (!ref_empty(a)) H.nontrivial++;
	// epsilon removal alone
	struct fsm *f = build(a);
	if (!fsm_remove_epsilons(f)) H.fail("remove_epsilons-fails", "returned false");
	else {
		Nfa g = extract(f);
		for (auto &s : g.s) if (!s.eps.empty()) { H.fail("remove_epsilons-left", "an epsilon transition remains"); break; }
		if (fsm_has(f, fsm_hasepsilons)) H.fail("remove_epsilons-has", "fsm_hasepsilons is still true");
		Diff x = compare(a, g, CMP_END);
		if (x.differ) H.fail("remove_epsilons-language", x.why);
		// and on from there
		if (!fsm_determinise(f)) H.fail("determinise-after-fails", "returned false");
		else { Nfa d = extract(f); std::string why; if (!is_dfa_shape(d, &why)) H.fail("determinise-after-shape", why); Diff y = compare(a, d, CMP_END); if (y.differ) H.fail("determinise-after-language", y.why); }
	}
	fsm_free(f);
	// determinisation
	f = build(a);
	if (!fsm_determinise(f)) H.fail("determinise-fails", "returned false");
	else {
		check_dfa_result(f, a, "determinise");
		size_t n1 = fsm_countstates(f);
		if (!fsm_determinise(f)) H.fail("determinise-twice-fails", "returned false");
		else { Nfa d = extract(f); std::string why; if (!is_dfa_shape(d, &why)) H.fail("determinise-twice-shape", why); Diff y = compare(a, d, CMP_END); if (y.differ) H.fail("determinise-twice-language", y.why); }
		fsm_free(f);
		if (limits) {
			std::vector<size_t> ls; size_t top = n1 > a.n() ? n1 : a.n();
			if (top <= 12) for (size_t l = 1; l <= top + 2; l++) ls.push_back(l);
			else for (size_t l : { (size_t) 1, a.n() - 1, a.n(), a.n() + 1, n1 / 2, n1 - 1, n1, n1 + 1, n1 * 2 }) if (l) ls.push_back(l);
			ls.push_back(0);
			for (size_t l : ls) {
				struct fsm *g = build(a); struct fsm_determinise_config c; memset(&c, 0, sizeof c); c.state_limit = l;
				int r = fsm_determinise_with_config(g, &c); H.counters["limit_runs"]++;
				Nfa d = extract(g); std::string why;
				Diff y = compare(a, d, CMP_END);
				if (y.differ) H.fail("limit-language", fmt("limit %zu, result %d: ", l, r) + y.why);
				if (r == FSM_DETERMINISE_WITH_CONFIG_OK) {
					if (l && d.n() > l) H.fail("limit-exceeded", fmt("limit %zu reported OK but the DFA has %zu states", l, d.n()));
					if (!is_dfa_shape(d, &why)) H.fail("limit-shape", why);
				} else if (r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) {
					H.counters["limit_reached"]++;
					if (l == 0 || l > top) H.fail("limit-spurious", fmt("limit %zu reported as reached; input has %zu states, the DFA %zu", l, a.n(), n1));
				} else H.fail("limit-errno", fmt("limit %zu gave result %d", l, r));
				fsm_free(g);
			}
		}
		return;
	}
	fsm_free(f);
}

int main(int argc, char **argv) {
	H.init(argc, argv);
	bool T = H.thorough; 
	enum_families([&](const Nfa &a, const std::string &n) { one(a, n, a.n() <= 80 || T); }, 1000, T);
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { one(a, "", true); });
	enum_nfas(2, T ? 12 : 6, 2, true, [&](const Nfa &a) { one(a, "", true); });
	enum_nfas(3, T ? 5 : 4, 2, true, [&](const Nfa &a) { one(a, "", (H.idx / 8) % 4 == 0); }, false);
	enum_nfas(4, T ? 4 : 3, 2, true, [&](const Nfa &a) { one(a, "", false); }, false);
	return H.finish();
}
