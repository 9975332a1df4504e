// P11: fsm_detect_required_characters reports exactly the bytes in every accepted string, or the limit with an empty set.
#include "gen.h"
#include <fsm/walk.h>
static bool avoid(const Nfa &a, int c) { // is there an accepted string without c (any c when -1)?
	std::vector<char> v(a.n(), 0); std::vector<int> q; if (a.start < 0) return false; q.push_back(a.start); v[a.start] = 1;
	for (size_t i = 0; i < q.size(); i++) { if (a.s[q[i]].end) return true; for (auto &e : a.s[q[i]].e) { if (v[e.second]) continue; Bytes b = e.first; if (c >= 0) b.reset(c); if (b.any()) { v[e.second] = 1; q.push_back(e.second); } H.transitions++; } }
	return false;
}
static void run(const Nfa &a, const std::string &name, size_t alllimits, size_t cap) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	Bytes want, present; for (auto &s : a.s) for (auto &e : s.e) present |= e.first; bool nonempty = avoid(a, -1); if (nonempty) for (int c = 0; c < 256; c++) if (present[c] && !avoid(a, c)) want.set(c);
	if (want.any()) H.nontrivial++; H.states += a.n();
	struct fsm *f = build(a); Nfa before = extract(f);
	auto call = [&](size_t limit, bool cnt) -> int { uint64_t m[4]; memset(m, 0xa5, sizeof m); size_t count = 12345; errno = 0; auto r = fsm_detect_required_characters(f, limit, m, cnt ? &count : nullptr); H.traces++; H.tick(); Bytes got; for (int c = 0; c < 256; c++) if (m[c / 64] >> (c % 64) & 1) got.set(c);
		auto bad = [&](const char *k, const std::string &msg) { H.fail(k, fmt("limit %zu: ", limit) + msg); return -9; };
		if (r == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) { if (!limit) return bad("no-limit", "limit reached without a limit"); if (got.any()) return bad("limit-set", "limit reached, but with " + show(got)); return 1; }
		if (r != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) return bad("result", fmt("returned %d", (int) r));
		if (got != want) return bad("set", "got " + show(got) + ", want " + show(want)); if (cnt && count != want.count()) return bad("count", fmt("count %zu, want %zu", count, want.count())); return 0; };
	// find out that it finishes in a reasonable number of steps before asking without a limit
	int r = call(cap, true); bool ok = r == 0;
	if (r == 1) H.counters["step_capped"]++;
	if (ok) { ok = call(0, true) == 0 && call(0, false) == 0; int prev = 1; for (size_t l = 1; ok && l <= alllimits; l++) { int x = call(l, l & 1); if (x < 0 || (prev == 0 && x == 1 && (H.fail("monotone", fmt("limit %zu is reached though a smaller one wasn't", l)), true))) ok = false; if (prev == 0 && x == 0 && l > alllimits / 8) break; prev = x; } if (ok) ok = call(0, true) == 0; }
	if (ok && extract(f).str() != before.str()) H.fail("changed", "the DFA was changed");
	fsm_free(f);
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	enum_dfas(1, 3, [&](const Nfa &a) { run(a, "", 40, 100000); });
	enum_dfas(2, 2, [&](const Nfa &a) { run(a, "", 60, 100000); });
	enum_dfas(2, 3, [&](const Nfa &a) { run(a, "", 60, 100000); });
	enum_dfas(3, 2, [&](const Nfa &a) { run(a, "", 60, 100000); });
	enum_dfas(3, 3, [&](const Nfa &a) { run(a, "", 80, 100000); }, true);
	enum_dfas(4, 2, [&](const Nfa &a) { if (T || H.idx % 11 == 0) run(a, "", 40, 100000); }, true);
	enum_families([&](const Nfa &a, const std::string &n) { Nfa d = ref_dfa(a, T ? 600 : 300); if (!d.n()) { H.counters["skipped_blowup"]++; return; } run(d, n, 30, T ? 3000000 : 200000); d = ref_trim(d); if (d.n()) { permute(d, 1 + H.idx % 5 % 3); run(d, n + " trimmed", 30, T ? 3000000 : 200000); } }, T ? 500 : 150, false, T ? 4 : 1);
	// layered graphs: k alternatives per layer, each with its own label, joining again; a repeated byte appears in some layers
	int W = T ? 5 : 4; for (int layers = 1; layers <= (T ? 7 : 5); layers++) for (int mask = 0; mask < (1 << std::min(layers, 5)); mask++) for (int tail = 0; tail < 40; tail += 13) for (int base : { 0, 60, 127, 250 }) { if (H.stop()) break; if (!H.take()) continue;
		Nfa a; a.start = 0; a.s.resize(1); int cur = 0; for (int l = 0; l < layers; l++) { int j = a.n() ; a.s.resize(a.n() + 1); int w = 1 + (l + mask) % W; for (int k = 0; k < w; k++) { int m = a.n(); a.s.resize(m + 1); Bytes b = B1((base + k) & 255); a.s[cur].e.push_back({b, m}); bool same = mask >> l & 1; a.s[m].e.push_back({same ? B1((base + 9) & 255) : (k % 2 ? BR(97, 99) : B1((base + 10 + k) & 255)), j}); } cur = j; }
		for (int t = 0; t < tail; t++) { int m = a.n(); a.s.resize(m + 1); a.s[cur].e.push_back({B1((base + 20 + t * 7) & 255), m}); cur = m; } a.s[cur].end = true; if (mask & 1 && layers > 2) a.s[3].e.push_back({B1(200), 0}); run(a, fmt("layers %d mask %d tail %d base %d", layers, mask, tail, base), 60, 2000000); }
	// every single byte, alone and with each neighbour bit
	for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d += (T ? 1 : 5)) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.start = 0; a.s.resize(3); Bytes b = B1(c); b.set(d); a.s[0].e.push_back({b, 1}); a.s[1].e.push_back({B1(d), 2}); a.s[2].end = true; run(a, fmt("bytes %d %d", c, d), 8, 1000); }
	for (int z = 0; z < 2; z++) if (H.take() && H.begin([] { return std::string("no start"); })) { Nfa a; a.start = -1; a.s.resize(z); struct fsm *f = build(a); uint64_t m[4]; size_t c; auto r = fsm_detect_required_characters(f, 0, m, &c); if (r != FSM_DETECT_REQUIRED_CHARACTERS_ERROR_MISUSE) H.fail("misuse", fmt("returned %d without a start state", (int) r)); fsm_free(f); }
	return H.finish();
}
