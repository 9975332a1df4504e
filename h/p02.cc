// P02: minimisation preserves the language and end metadata, and the result is minimal.
#include "gen.h"

static void assign_eager(Nfa &a, int pattern) {
	for (size_t i = 0; i < a.n(); i++) switch (pattern) {
	case 1: if (i % 2) a.s[i].eager = { 1 }; break;
	case 2: a.s[i].eager = { (uint64_t) (i % 3) }; break;
	case 3: if (a.s[i].end) for (uint64_t j = 0; j < 4 + i % 2; j++) a.s[i].eager.insert(j * 2 + i % 2); break;
	case 4: a.s[i].eager = { 5 }; break;
	}
}

static void one(const Nfa &a, const std::string &name) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	bool empty = ref_empty(a);
	if (!empty) H.nontrivial++;
	struct fsm *f = build(a);
	if (!fsm_minimise(f)) { H.fail("minimise-fails", "returned false"); fsm_free(f); return; }
	Nfa m = extract(f); std::string why;
	if (!is_dfa_shape(m, &why)) H.fail("shape", why);
	Nfa t = ref_trim(a);
	if (empty) {
		if (!ref_empty(m)) H.fail("empty", "the empty language became non-empty");
	} else {
		Diff d = compare(t, m, CMP_END | CMP_IDS | CMP_EAGER);
		if (d.differ) H.fail("behaviour", d.why);
		size_t want = ref_min_states(t, CMP_END | CMP_IDS | CMP_EAGER);
		if (m.n() != want) H.fail("not-minimal", fmt("%zu states, the minimal machine has %zu", m.n(), want));
		// the ids as reported through execution
		unsigned char cls[256]; auto reps = byte_classes({&a, &m}, cls);
		if (reps.size() > 5) reps.resize(5);
		int len = a.n() > 12 ? 3 : 4;
		all_strings(reps, len, [&](const std::string &s) {
			fsm_state_t e; int r = run_exec(f, s, &e); H.traces++; Ids ids, got;
			bool want = ref_accepts(a, s, &ids);
			if (r < 0 || (r == 1) != want) { H.fail("exec", show(s) + fmt(" returned %d, want %d", r, want)); return false; }
			if (r == 1) { size_t k = fsm_endid_count(f, e); std::vector<fsm_end_id_t> b(k + 1); if (k && fsm_endid_get(f, e, k, b.data()) != 1) { H.fail("endid_get", show(s)); return false; }
				for (size_t i = 0; i < k; i++) got.insert(b[i]);
				if (got != ids || k != got.size()) { H.fail("exec-endids", show(s) + " gives " + show(got) + ", want " + show(ids)); return false; } }
			return true;
		});
	}
	// minimising again changes nothing
	size_t n1 = m.n();
	if (!fsm_minimise(f)) H.fail("twice-fails", "returned false");
	else { Nfa m2 = extract(f); if (m2.n() != n1) H.fail("twice-size", fmt("%zu then %zu states", n1, m2.n())); if (!empty) { Diff d = compare(t, m2, CMP_END | CMP_IDS | CMP_EAGER); if (d.differ) H.fail("twice-behaviour", d.why); } }
	fsm_free(f);
}

int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	auto dec = [&](Nfa a) { int64_t k = H.idx / 8; assign_ids(a, (int) (k % 7)); assign_eager(a, (int) (k / 7 % 9)); return a; };
	// determinised families: distinct shapes and sizes, with dead states left in
	enum_families([&](const Nfa &a, const std::string &n) {
		Nfa d = ref_dfa(a); if (d.n() > 1200) return;
		if (H.idx & 1) d = ref_trim(d);
		int64_t k = H.idx / 4; int pi = (int) (k % 7), pe = (int) (k / 7 % 8);
		assign_ids(d, pi); assign_eager(d, pe); permute(d, (int) (H.idx / 2 % 4));
		one(d, n + fmt(" ids %d eager %d", pi, pe));
	}, T ? 1000 : 300, T, T ? 4 : 2, ~(1u << 10));
	// many copies of one machine glued under a fan: large classes of equivalent states, across the class-size thresholds
	for (int copies = 2; copies <= 40; copies++) for (int len = 1; len <= 6; len++) for (int labels = 1; labels <= 9; labels++) {
		if (H.stop()) break; if (!H.take()) continue;
		Nfa a; int s = a.add(); a.start = s;
		for (int c = 0; c < copies; c++) { int p = a.add(); a.lit(s, p, (unsigned char) (c * 7)); for (int i = 0; i < len; i++) { int q = a.add(i == len - 1 || (i == 2 && c % 5 == 3)); for (int l = 0; l < labels; l++) a.lit(p, q, 'a' + l * 3); if (c % 4 == 1 && i == len - 1) a.lit(q, q, 'z'); p = q; } }
		int pi = (copies + len) % 7; assign_ids(a, pi == 1 ? 6 : pi); permute(a, (copies + labels) % 4);
		one(a, fmt("glued copies %d len %d labels %d", copies, len, labels));
	}
	enum_dfas(1, 3, [&](const Nfa &a) { one(dec(a), ""); });
	enum_dfas(2, 2, [&](const Nfa &a) { for (int p = 0; p < 1; p++) one(dec(a), ""); });
	enum_dfas(2, 3, [&](const Nfa &a) { one(dec(a), ""); });
	enum_dfas(3, 2, [&](const Nfa &a) { one(dec(a), ""); });
	enum_dfas(4, 2, [&](const Nfa &a) { one(dec(a), ""); }, true);
	enum_dfas(6, 1, [&](const Nfa &a) { one(dec(a), ""); }, true);
	if (T) { enum_dfas(3, 3, [&](const Nfa &a) { one(dec(a), ""); }, true); enum_dfas(8, 1, [&](const Nfa &a) { one(dec(a), ""); }, true); enum_dfas(5, 2, [&](const Nfa &a) { one(dec(a), ""); }, true); }
	return H.finish();
}
