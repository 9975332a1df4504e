// P10: fsm_generate_matches produces exactly one accepted input per distinct path; prune and halt only remove inputs;
// every choice of the random generator is enumerated through an interposed rand().
#include "gen.h"
#include <fsm/walk.h>
static std::vector<int> rnd; static size_t rnd_i;
extern "C" int rand(void) noexcept { return rnd_i < rnd.size() ? rnd[rnd_i++] : (int) (rnd_i++ * 7919 % 1009); }
typedef std::vector<int> Path;
struct Run { const Nfa *a; std::vector<std::array<int, 256>> t; std::vector<Path> out; std::vector<std::string> strs; std::vector<int> ends; std::set<Path> pruned; size_t L; std::vector<int> ans; std::string bad; bool over = false; size_t cap = 5000; };
static enum fsm_generate_matches_cb_res cb(const struct fsm *f, size_t depth, size_t mc, size_t steps, const char *in, size_t n, fsm_state_t end, void *o) {
	Run &r = *(Run *) o; (void) depth; (void) steps; std::string s(in, n); size_t k = r.out.size(); H.traces++; H.tick();
	if (in[n] != '\0') r.bad = "input not terminated"; if (n > r.L) r.bad = show(s) + " is longer than the maximum"; if (mc != k) r.bad = fmt("match count %zu, want %zu", mc, k);
	if (end >= fsm_countstates(f) || !fsm_isend(f, end)) r.bad = fmt("reported state %u isn't an end state", end);
	else { fsm_state_t e; int x = run_exec(f, s, &e); if (x != 1) r.bad = show(s) + " isn't accepted"; else if (e != end) r.bad = fmt("on %s state %u reported, execution ends at %u", show(s).c_str(), end, e); }
	Path p{r.a->start}; int q = r.a->start; for (unsigned char c : s) { q = r.t[q][c]; if (q < 0) { r.bad = show(s) + " isn't accepted"; break; } p.push_back(q); H.transitions++; }
	if (q >= 0 && !r.a->s[q].end) r.bad = show(s) + " isn't accepted";
	r.out.push_back(p); r.strs.push_back(s); r.ends.push_back(q); if (r.out.size() > r.cap) { r.over = true; return FSM_GENERATE_MATCHES_CB_RES_HALT; }
	int d = k < r.ans.size() ? r.ans[k] : 0; if (d == 1) { r.pruned.insert(p); return FSM_GENERATE_MATCHES_CB_RES_PRUNE; } if (d == 2) return FSM_GENERATE_MATCHES_CB_RES_HALT; return FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}
// every path of at most L steps which ends at an end state; false when there are more than cap
static bool all_paths(const Nfa &a, size_t L, size_t cap, std::vector<Path> &out) {
	std::vector<std::set<int>> succ(a.n()); for (size_t i = 0; i < a.n(); i++) for (auto &e : a.s[i].e) if (e.first.any()) succ[i].insert(e.second);
	std::vector<size_t> dist(a.n(), 1 << 30); for (size_t i = 0; i < a.n(); i++) if (a.s[i].end) dist[i] = 0; for (bool ch = true; ch; ) { ch = false; for (size_t i = 0; i < a.n(); i++) for (int t : succ[i]) if (dist[t] + 1 < dist[i]) { dist[i] = dist[t] + 1; ch = true; } }
	std::vector<Path> st; if (a.start >= 0) st.push_back({a.start}); size_t work = 0;
	while (!st.empty()) { Path p = st.back(); st.pop_back(); if (p.size() - 1 + dist[p.back()] > L) continue; if (++work > cap * 20) return false; if (a.s[p.back()].end) { out.push_back(p); if (out.size() > cap) return false; } if (p.size() <= L) for (int t : succ[p.back()]) { Path q = p; q.push_back(t); st.push_back(q); } }
	std::sort(out.begin(), out.end()); return true;
}
static bool go(const Nfa &a, size_t L, const std::vector<Path> &want, const std::vector<int> &ans, int randomized, Run &r, size_t at) {
	static std::vector<std::array<int, 256>> t; r.a = &a; r.L = L; r.ans = ans; r.t.assign(a.n(), {}); for (size_t i = 0; i < a.n(); i++) { r.t[i].fill(-1); for (auto &e : a.s[i].e) for (int c = 0; c < 256; c++) if (e.first[c]) r.t[i][c] = e.second; }
	struct fsm *f = build(a); int x = fsm_generate_matches(f, L, randomized, cb, &r); fsm_free(f); rnd_i = 0;
	std::string ctx = fmt("length %zu, answers", L); for (int d : ans) ctx += fmt(" %d", d); if (randomized) { ctx += ", choices"; for (int d : rnd) ctx += fmt(" %d", d); }
	auto bad = [&](const char *k, const std::string &m) { H.fail(k, ctx + ": " + m); return false; };
	if (!r.bad.empty()) return bad("input", r.bad); if (x != 1) return bad("result", fmt("returned %d", x)); if (r.over) return bad("count", "too many inputs");
	std::vector<Path> got = r.out; std::sort(got.begin(), got.end()); for (size_t i = 0; i + 1 < got.size(); i++) if (got[i] == got[i + 1]) return bad("duplicate", "a path was taken twice");
	if (at < ans.size() && ans[at] == 2) return true; // judged by the caller
	std::vector<Path> w; if (r.pruned.empty()) w = want; else for (auto &p : want) { bool keep = true; for (size_t n = 1; n < p.size() && keep; n++) if (r.pruned.count(Path(p.begin(), p.begin() + n))) keep = false; if (keep) w.push_back(p); }
	if (got != w) return bad("paths", fmt("%zu inputs, want %zu", got.size(), w.size())); return true;
}
static void explore(const Nfa &a, const std::string &name, size_t L, int K, int R, size_t cap) {
	if (!H.begin([&] { return (name.empty() ? a.str() : name) + fmt(", length %zu", L); })) return;
	std::vector<Path> want; if (!all_paths(a, L, cap, want)) { H.counters["too_many_paths"]++; return; } if (!want.empty()) H.nontrivial++; rnd.clear(); rnd_i = 0;
	Run base; base.cap = cap + 5; if (!go(a, L, want, {}, 0, base, 99)) return; H.states += base.out.size();
	// every sequence of answers to the first K callbacks
	std::vector<int> ans; bool ok = true;
	std::function<void()> rec = [&]() {
		if (!ok || (int) ans.size() >= K || ans.size() >= base.out.size()) return;
		for (int d : { 1, 0, 2 }) { ans.push_back(d); if (d) { Run r; r.cap = cap + 5; if (!go(a, L, want, ans, 0, r, ans.size() - 1)) ok = false; else if (r.out.size() >= ans.size()) { if (d == 2) { if (r.out.size() != ans.size()) { H.fail("halt", fmt("%zu inputs after halting at %zu", r.out.size(), ans.size())); ok = false; } } }
				else { ans.pop_back(); return; } } // fewer callbacks than answers: nothing further to choose
			if (d != 2 && ok) rec(); ans.pop_back(); if (!ok) return; }
	};
	rec();
	// halting keeps exactly the inputs seen before
	for (size_t h = 0; ok && h < base.out.size() && h < 12; h++) { std::vector<int> v(h, 0); v.push_back(2); Run r; r.cap = cap + 5; if (!go(a, L, want, v, 0, r, h)) ok = false; else if (r.strs != std::vector<std::string>(base.strs.begin(), base.strs.begin() + h + 1)) { H.fail("halt-prefix", fmt("halting at %zu changes the inputs before", h)); ok = false; } }
	// prune at every single place
	for (size_t h = K; ok && h < base.out.size() && h < 60; h++) { std::vector<int> v(h, 0); v.push_back(1); Run r; r.cap = cap + 5; if (!go(a, L, want, v, 0, r, h)) ok = false; }
	// every sequence of the first R random choices
	std::function<void()> rr = [&]() { if (!ok) return; Run r; r.cap = cap + 5; if (!go(a, L, want, {}, 1, r, 99)) { ok = false; return; } if ((int) rnd.size() >= R) return; for (int v : { 0, 1, 2, 94, 0x7fffffff }) { rnd.push_back(v); rr(); rnd.pop_back(); } };
	rr();
}
static void labels(const Bytes &b, const std::string &name) {
	if (!H.begin([&] { return "labels " + name; })) return; H.nontrivial++; Nfa a; a.start = 0; a.s.resize(2); a.s[0].e.push_back({b, 1}); a.s[1].end = true; a.s[1].e.push_back({b, 1}); std::vector<Path> want; all_paths(a, 2, 10, want);
	Run r; rnd.clear(); go(a, 2, want, {}, 0, r, 99); for (int v = 0; v < 256; v++) { rnd = { v, 255 - v }; Run q; if (!go(a, 2, want, {}, 1, q, 99)) break; } rnd.clear();
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	enum_dfas(1, 3, [&](const Nfa &a) { for (int L : { 1, 2, 4, 9 }) { if (L > 1 && !H.take()) continue; explore(a, "", L, 4, 2, 3000); } });
	enum_dfas(2, 2, [&](const Nfa &a) { explore(a, "", 1 + H.idx % 5, T ? 6 : 4, 2, 3000); });
	enum_dfas(2, 3, [&](const Nfa &a) { explore(a, "", 1 + H.idx % 4, T ? 5 : 3, 1, 3000); });
	enum_dfas(3, 2, [&](const Nfa &a) { if (T || H.idx % 3 == 0) explore(a, "", 1 + H.idx % 5, T ? 4 : 3, H.idx % 5 == 0, 3000); });
	// the start state isn't the first, and other states are unreachable or dead
	enum_dfas(2, 2, [&](const Nfa &a) { Nfa b = a; int how = H.idx % 7 % 3; b.s.resize(3 + how); b.s[2].end = true; if (how) b.s[2].e.push_back({BR('a', 'b'), 0}); permute(b, 1 + H.idx % 5 % 3); explore(b, "", 1 + H.idx % 5, 3, 0, 3000); });
	if (T) enum_dfas(3, 3, [&](const Nfa &a) { if (H.idx % 7 == 0) explore(a, "", 1 + H.idx % 4, 2, 0, 2000); });
	enum_families([&](const Nfa &a, const std::string &n) { Nfa d = ref_dfa(a, T ? 1500 : 400); if (!d.n()) { H.counters["skipped_blowup"]++; return; } d = ref_trim(d); if (H.idx % 3 && d.n() > 1) permute(d, 1 + H.idx % 3);
		size_t L = d.n() + 1, cap = T ? 4000 : 1000; std::vector<Path> w; while (L > 1 && !all_paths(d, L, cap, w)) { L = L > 20 ? L / 2 : L - 1; w.clear(); } explore(d, n, L, 2, 0, cap); }, T ? 500 : 150, false, T ? 4 : 1);
	for (int c = 0; c < 256; c++) if (H.take()) labels(B1(c), fmt("%02x", c)); for (int c = 1; c < 256; c += 3) if (H.take()) { Bytes b = B1(c); b.set(0); labels(b, fmt("00,%02x", c)); }
	for (int lo = 0; lo < 256; lo += 15) for (int hi = lo; hi < 256; hi += 31) if (H.take()) labels(BR(lo, hi), fmt("%02x-%02x", lo, hi));
	for (int z = 0; z < 2; z++) if (H.take()) { if (!H.begin([&] { return std::string("maximum length 0"); })) continue; Nfa a; a.start = 0; a.s.resize(1); a.s[0].end = z; a.s[0].e.push_back({BR('a', 'c'), 0}); struct fsm *f = build(a); Run r; r.a = &a; errno = 0; int x = fsm_generate_matches(f, 0, 0, cb, &r); if (x != 0 || errno != EINVAL || !r.out.empty()) H.fail("zero", fmt("returned %d", x)); fsm_free(f); }
	return H.finish();
}
