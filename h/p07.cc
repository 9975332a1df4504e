// P07: fsm_exec follows exactly the transitions of the DFA, reading its input once.
#include "gen.h"
struct Cb { std::vector<uint64_t> got; };
static std::vector<std::array<int, 256>> table(const Nfa &a) {
	std::vector<std::array<int, 256>> t(a.n()); for (size_t i = 0; i < a.n(); i++) { t[i].fill(-1); for (auto &e : a.s[i].e) for (int c = 0; c < 256; c++) if (e.first[c]) t[i][c] = e.second; } return t;
}
struct Want { int r; int state; size_t reads; bool eof; };
static Want expect(const Nfa &a, const std::vector<std::array<int, 256>> &t, const std::string &s) {
	int q = a.start; for (size_t i = 0; i < s.size(); i++) { q = t[q][(unsigned char) s[i]]; if (q < 0) return {0, -1, i + 1, false}; }
	return {a.s[q].end ? 1 : 0, q, s.size(), true};
}
static bool one(const struct fsm *f, const Nfa &a, const std::vector<std::array<int, 256>> &t, const std::string &s, int how) {
	Want w = expect(a, t, s); fsm_state_t end = 0xdeadbeef; int r; H.traces++;
	auto bad = [&](const char *key, const std::string &m) { H.fail(key, "on " + show(s) + ": " + m); return false; };
	if (how == 0) {
		MemIn m; r = run_exec(f, s, &end, &m);
		if (m.i != w.reads) return bad("reads", fmt("%zu bytes read, want %zu", m.i, w.reads));
		if (m.reads_after_eof != (w.eof ? 1u : 0u)) return bad("reads-eof", fmt("end of input read %zu times", m.reads_after_eof));
	} else if (how == 1) {
		if (s.find('\0') != std::string::npos) return true;
		const char *p = s.c_str(); r = fsm_exec(f, fsm_sgetc, &p, &end, nullptr);
		if ((size_t) (p - s.c_str()) != w.reads) return bad("sgetc-reads", fmt("%zu bytes read, want %zu", (size_t) (p - s.c_str()), w.reads));
	} else {
		if (s.empty()) return true;
		FILE *fp = fmemopen((void *) s.data(), s.size(), "r"); r = fsm_exec(f, fsm_fgetc, fp, &end, nullptr); long pos = ftell(fp); fclose(fp);
		if ((size_t) pos != w.reads) return bad("fgetc-reads", fmt("%ld bytes read, want %zu", pos, w.reads));
	}
	if (r != w.r) return bad("result", fmt("returned %d, want %d", r, w.r));
	if (r == 1 && (int) end != w.state) return bad("end-state", fmt("end state %u, want %d", end, w.state));
	return true;
}
static void run(const Nfa &a, const std::string &name, int len) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	struct fsm *f = build(a); std::string why; uint64_t nf = H.nfails;
	bool dfa = is_dfa_shape(a);
	if (!dfa || a.start < 0) {
		MemIn m{"ab", 2}; fsm_state_t e; errno = 0; int r = fsm_exec(f, mem_getc, &m, &e, nullptr);
		if (r != -1) H.fail("nfa-error", fmt("returned %d for a machine that can't be executed", r)); else if (errno == 0) H.fail("nfa-errno", "errno not set");
		if (m.i || m.reads_after_eof) H.fail("nfa-reads", "input was read");
		H.counters["refused"]++; fsm_free(f); return;
	}
	if (!ref_empty(a)) H.nontrivial++;
	auto t = table(a);
	// access strings
	std::vector<std::string> acc(a.n()); std::vector<char> seen(a.n(), 0); std::vector<int> q{a.start}; seen[a.start] = 1;
	for (size_t i = 0; i < q.size(); i++) for (int c = 0; c < 256; c++) { int y = t[q[i]][c]; if (y >= 0 && !seen[y]) { seen[y] = 1; acc[y] = acc[q[i]] + (char) c; q.push_back(y); } }
	H.states += q.size();
	// every byte from every state; for the larger machines, the bytes on either side of every boundary between transitions
	bool full = a.n() <= 3 ? H.idx % 7 == 0 : a.n() <= 12;
	auto pick = [&](int x, int c) { return full || c == 0 || c == 255 || c == 127 || c == 128 || t[x][c] != t[x][c - 1] || t[x][c] != t[x][c + 1]; };
	for (int pass = 0; pass < 2 && H.nfails == nf; pass++) {
		// second pass: every state an end state, so that the state reached is always visible
		Nfa b = a; if (pass) { for (size_t i = 0; i < b.n(); i++) { b.s[i].end = true; fsm_setend(f, i, 1); } }
		for (int x : q) for (int c = 0; c < 256; c++) if (pick(x, c)) { H.transitions++; if (!one(f, b, t, acc[x] + (char) c, c % 97 == 1 ? 1 + c / 97 % 2 : 0)) break; }
		for (int x : q) for (int how = 0; how < 3; how++) one(f, b, t, acc[x], how);
	}
	for (size_t i = 0; i < a.n(); i++) if (!a.s[i].end) fsm_setend(f, i, 0);
	unsigned char cls[256]; auto reps = byte_classes({&a}, cls); if (reps.size() > 4) reps.resize(4);
	all_strings(reps, len, [&](const std::string &s) { return one(f, a, t, s, 0) && one(f, a, t, s, 1) && (s.size() > 3 || one(f, a, t, s, 2)); });
	if (len >= 3) { // a long walk
		std::string s; int x = a.start; for (int i = 0; i < 5000; i++) { int c = -1; for (int k = 0; k < 256; k++) { int b = (i * 59 + k * 7) & 255; if (t[x][b] >= 0) { c = b; break; } } if (c < 0) break; s += (char) c; x = t[x][c]; } one(f, a, t, s, 0); one(f, a, t, s, 2); }
	fsm_free(f);
}
int main(int argc, char **argv) {
	H.init(argc, argv); bool T = H.thorough;
	enum_dfas(1, 3, [&](const Nfa &a) { run(a, "", 5); });
	enum_dfas(2, 2, [&](const Nfa &a) { run(a, "", T ? 7 : 5); });
	enum_dfas(2, 3, [&](const Nfa &a) { run(a, "", 4); });
	enum_dfas(3, 2, [&](const Nfa &a) { if (T || H.idx % 3 == 0) run(a, "", 4); });
	enum_nfas(1, 3, 2, true, [&](const Nfa &a) { run(a, "", 4); });
	enum_nfas(2, T ? 4 : 3, 2, true, [&](const Nfa &a0) { Nfa a = a0; if (H.idx % 11 == 3) a.start = -1; run(a, "", 3); });
	enum_families([&](const Nfa &a, const std::string &n) { Nfa d = a; if (!is_dfa_shape(a)) { d = ref_dfa(a, T ? 2000 : 300); if (!d.n()) { run(a, n, 2); return; } d = ref_trim(d); } run(d, n, 3); }, T ? 400 : 130, T, 2);
	return H.finish();
}
