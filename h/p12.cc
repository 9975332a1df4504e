// P12: fsm_shortest returns a least-cost path; fsm_example spells the least-cost one under fsm_cost_legible, within its buffer.
#include "gen.h"
#include <fsm/walk.h>
#include <fsm/cost.h>
#include <adt/path.h>
#include <limits.h>
static unsigned c_unit(fsm_state_t, fsm_state_t, char) { return 1; }
static unsigned c_zero(fsm_state_t, fsm_state_t, char) { return 0; }
static unsigned c_label(fsm_state_t, fsm_state_t, char c) { return (unsigned char) c * 37 % 101; }
static unsigned c_states(fsm_state_t f, fsm_state_t t, char) { return (f * 3 + t * 5 + 1) % 7; }
static unsigned c_last(fsm_state_t, fsm_state_t, char c) { return 255 - (unsigned char) c; }
static unsigned c_some(fsm_state_t f, fsm_state_t t, char c) { return (f + t + (unsigned char) c) % 3 ? FSM_COST_INFINITY : 2; }
static unsigned c_big(fsm_state_t f, fsm_state_t t, char) { return f < t ? UINT_MAX / 2 + 1 : UINT_MAX - 3; }
static unsigned c_mixed(fsm_state_t f, fsm_state_t t, char c) { return f == t ? 0 : (unsigned char) c == 'b' ? UINT_MAX - 1 : f > t ? 1 : 1000; }
typedef unsigned (*Cost)(fsm_state_t, fsm_state_t, char);
static const Cost costs[] = { fsm_cost_legible, c_unit, c_zero, c_label, c_states, c_last, c_some, c_big, c_mixed };
static const char *const costname[] = { "legible", "unit", "zero", "label", "states", "last", "some", "big", "mixed" };
struct E { int to; std::array<unsigned, 256> c; };
static std::vector<uint64_t> best(const Nfa &a, int start, Cost cost) { // by relaxation to a fixed point; UINT_MAX is infinity
	std::vector<uint64_t> d(a.n(), UINT_MAX); d[start] = 0; std::vector<std::vector<std::pair<int, uint64_t>>> w(a.n());
	for (size_t i = 0; i < a.n(); i++) { std::map<int, uint64_t> m; for (auto &e : a.s[i].e) for (int c = 0; c < 256; c++) if (e.first[c]) { uint64_t x = cost(i, e.second, (char) c); auto it = m.emplace(e.second, x).first; it->second = std::min(it->second, x); } w[i].assign(m.begin(), m.end()); }
	for (bool ch = true; ch; ) { ch = false; for (size_t i = 0; i < a.n(); i++) if (d[i] != UINT_MAX) for (auto &e : w[i]) { H.transitions++; uint64_t x = d[i] + e.second; if (x < UINT_MAX && x < d[e.first]) { d[e.first] = x; ch = true; } } } return d;
}
static bool has_edge(const Nfa &a, int f, int t, unsigned char c) { for (auto &e : a.s[f].e) if (e.second == t && e.first[c]) return true; return false; }
// can the text (\xHH for unprintable bytes; a backslash may also be itself) lead from start to goal at exactly this cost?
static bool spells(const Nfa &a, int start, int goal, const std::string &s, uint64_t want) {
	std::map<std::pair<size_t, int>, std::set<uint64_t>> m; m[{0, start}].insert(0);
	for (auto it = m.begin(); it != m.end(); ++it) { size_t i = it->first.first; int q = it->first.second; if (i == s.size()) continue;
		auto step = [&](unsigned char c, size_t n) { for (auto &e : a.s[q].e) if (e.first[c]) for (uint64_t x : it->second) { uint64_t y = x + fsm_cost_legible(q, e.second, (char) c); if (y <= want) m[{i + n, e.second}].insert(y); } };
		if (isprint((unsigned char) s[i])) step(s[i], 1); if (s[i] == '\\' && i + 4 <= s.size() && s[i + 1] == 'x' && isxdigit(s[i + 2]) && isxdigit(s[i + 3])) step((unsigned char) strtoul(s.substr(i + 2, 2).c_str(), nullptr, 16), 4); }
	auto it = m.find({s.size(), goal}); return it != m.end() && it->second.count(want);
}
static void run(const Nfa &a, const std::string &name, bool all) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	struct fsm *f = build(a); bool ok = true, some = false; size_t n = a.n(); std::vector<int> starts; for (size_t i = 0; i < n; i++) if (all || (int) i == a.start || i == n / 2) starts.push_back(i);
	for (size_t k = 0; k < sizeof costs / sizeof *costs && ok; k++) { if (!all && k && k != 1 + H.idx % 8) continue; for (int st : starts) { auto d = best(a, st, costs[k]);
		for (size_t g = 0; g < n && ok; g += (all ? 1 : 1 + n / 12)) {
			struct path *p = fsm_shortest(f, st, g, costs[k]); H.traces++; H.tick(); auto bad = [&](const char *key, const std::string &m) { H.fail(key, fmt("%s cost, %d to %zu: ", costname[k], st, g) + m); ok = false; };
			if (!p) { bad("null", "no path returned"); break; }
			bool has = false; for (auto q = p; q; q = q->next) if (q->state == g) has = true;
			if (d[g] == UINT_MAX) { if (has) bad("unreachable", "a path to an unreachable goal"); }
			else { if ((int) g != st) some = true; H.states++; if (!has) bad("missing", "no path to a reachable goal"); else { uint64_t sum = 0; auto q = p; if ((int) q->state != st) bad("start", fmt("the path starts at %u", q->state)); else { for (; q->next && ok; q = q->next) { if (!has_edge(a, q->state, q->next->state, (unsigned char) q->next->c)) bad("edge", fmt("no transition from %u to %u by %02x", q->state, q->next->state, (unsigned char) q->next->c)); else sum += costs[k](q->state, q->next->state, q->next->c); }
				if (ok && q->state != g) bad("end", "doesn't end at the goal"); else if (ok && sum != d[g]) bad("cost", fmt("costs %llu, want %llu", (unsigned long long) sum, (unsigned long long) d[g])); } } }
			for (struct path *q; p; p = q) { q = p->next; free(p); }
		} } }
	if (some) H.nontrivial++;
	if (ok && a.start >= 0) { auto d = best(a, a.start, fsm_cost_legible); for (size_t g = 0; g < n && ok; g += (all ? 1 : 1 + n / 25)) {
		std::vector<char> big(4 * n + 8, 'Z'); int r = fsm_example(f, g, big.data(), big.size()); H.traces++; auto bad = [&](const char *key, const std::string &m) { H.fail(key, fmt("goal %zu: ", g) + m); ok = false; };
		if (r < 0) { bad("example", "failed"); break; } if (big[r] != '\0' || strlen(big.data()) != (size_t) r) { bad("example-length", fmt("returned %d for %s", r, show(big.data()).c_str())); break; } std::string s = big.data();
		if (d[g] == UINT_MAX) { if (r) bad("example-unreachable", "example " + show(s) + " for an unreachable goal"); } else if (!spells(a, a.start, g, s, d[g])) bad("example-path", show(s) + fmt(" isn't a least-cost way, which costs %llu", (unsigned long long) d[g]));
		for (size_t z = 0; ok && z <= s.size() + 2; z += (z < 12 ? 1 : 1 + s.size() / 20)) { std::vector<char> b(z + 6, 'Z'); int q = fsm_example(f, g, z ? b.data() : nullptr, z); H.traces++; if (q != r) bad("example-size", fmt("returned %d with a buffer of %zu, %d otherwise", q, z, r)); for (size_t i = z; i < b.size() && ok; i++) if (b[i] != 'Z') bad("example-overrun", fmt("wrote beyond a buffer of %zu", z));
			if (ok && z) { size_t len = strnlen(b.data(), z); if (len == z) bad("example-nul", fmt("not terminated in %zu", z)); else if (s.compare(0, len, b.data())) bad("example-prefix", fmt("buffer of %zu: %s isn't a prefix of %s", z, show(b.data()).c_str(), show(s).c_str())); else if (z > s.size() && len != s.size()) bad("example-short", fmt("buffer of %zu holds only %zu", z, len)); } }
	} }
	fsm_free(f);
}
static void legible() { // classes in order of legibility, then by value
	if (!H.begin([] { return std::string("fsm_cost_legible"); })) return; H.nontrivial++;
	auto cls = [](int c) { if (c >= 'a' && c <= 'z') return 0; if (c >= 'A' && c <= 'Z') return 1; if (c >= '0' && c <= '9') return 2; if (c > ' ' && c < 127) return 3; if (c == ' ' || (c >= 9 && c <= 13)) return 4; return 5; };
	for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { unsigned p = fsm_cost_legible(0, 1, (char) x), q = fsm_cost_legible(7, 3, (char) y); bool lt = std::make_pair(cls(x), x) < std::make_pair(cls(y), y); H.traces++; if ((p < q) != lt && x != y) { H.fail("legible", fmt("%02x costs %u, %02x costs %u", x, p, y, q)); return; } if (x == y && p != q) { H.fail("legible-states", "depends on the states"); return; } }
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	if (H.take()) legible();
	auto noeps = [&](const Nfa &a) { run(a, "", true); };
	enum_nfas(1, 3, 2, false, noeps, false); enum_nfas(2, 6, 2, false, noeps, false); enum_nfas(3, T ? 5 : 4, 2, false, [&](const Nfa &a) { if (T || H.idx % 3 == 0) run(a, "", true); }, false); enum_nfas(4, T ? 5 : 3, 2, false, [&](const Nfa &a) { if (H.idx % 5 == 0) run(a, "", true); }, false);
	enum_nfas(4, T ? 8 : 6, 1, false, [&](const Nfa &a) { if (H.idx % (T ? 37 : 59) == 0) run(a, "", true); }, false);
	enum_families([&](const Nfa &a, const std::string &n) { bool eps = false; for (auto &s : a.s) if (!s.eps.empty()) eps = true; Nfa d = a; if (eps) { d = ref_dfa(a, T ? 400 : 150); if (!d.n()) { H.counters["skipped_blowup"]++; return; } } run(d, n, d.n() < 6); }, T ? 300 : 140, false, T ? 4 : 1);
	for (int b0 = 0; b0 < 256; b0 += (T ? 1 : 3)) for (int b1 = 0; b1 < 256; b1 += (T ? 3 : 11)) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.start = 0; a.s.resize(4); Bytes b = B1(b0); b.set(b1); a.s[0].e.push_back({b, 1}); a.s[1].e.push_back({B1('q'), 2}); a.s[0].e.push_back({B1(b1), 2}); a.s[2].e.push_back({BR(std::min(b0, b1), std::max(b0, b1)), 3}); a.s[3].end = true; run(a, fmt("bytes %02x %02x", b0, b1), true); }
	return H.finish();
}
