// A complete test suite for one DFA (the partial W-method): for an implementation with no more states than the DFA,
// agreeing on every string of the suite means agreeing on every string.
#pragma once
#include "ref.h"
typedef std::vector<std::array<int, 256>> Table; // -1: no transition
static inline Table dfa_table(const Nfa &a) { Table t(a.n()); for (size_t i = 0; i < a.n(); i++) { t[i].fill(-1); for (auto &e : a.s[i].e) for (int c = 0; c < 256; c++) if (e.first[c]) t[i][c] = e.second; } return t; }
static inline int dfa_run(const Nfa &a, const Table &t, const std::string &s) { int q = a.start; for (unsigned char c : s) { if (q < 0) return -1; q = t[q][c]; } return q; }
static inline std::vector<unsigned char> table_classes(const Table &t, unsigned char cls[256]) { // one representative per class of bytes
	std::map<std::vector<int>, int> m; std::vector<unsigned char> reps; for (int c = 0; c < 256; c++) { std::vector<int> col; for (auto &r : t) col.push_back(r[c]); auto it = m.emplace(col, (int) reps.size()); if (it.second) reps.push_back(c); cls[c] = it.first->second; } return reps; }
struct Suite {
	std::vector<std::string> access; std::vector<std::string> W; std::vector<std::vector<int>> ident; std::vector<int> cls; int nclasses = 0; std::vector<unsigned char> reps; unsigned char rc[256];
	// states 0..n-1, n is the dead state; ids: whether end ids are told apart
	Suite(const Nfa &a, const Table &t, bool ids) {
		int n = a.n(); reps = table_classes(t, rc); access.assign(n, std::string("?", 0)); std::vector<char> seen(n, 0); std::vector<int> q{a.start}; if (n) seen[a.start] = 1;
		for (size_t i = 0; i < q.size(); i++) for (unsigned char c : reps) { int x = t[q[i]][c]; if (x >= 0 && !seen[x]) { seen[x] = 1; access[x] = access[q[i]] + (char) c; q.push_back(x); } }
		reach = seen; auto to = [&](int s, int c) { return s == n || t[s][c] < 0 ? n : t[s][c]; };
		std::map<std::pair<bool, Ids>, int> k0; cls.assign(n + 1, 0); std::vector<std::vector<int>> sig(n + 1); // sig: observation after each string of W
		auto obs = [&](int s) { std::pair<bool, Ids> o(s < n && a.s[s].end, Ids()); if (ids && o.first) o.second = a.s[s].ids; return k0.emplace(o, (int) k0.size()).first->second; };
		W.push_back(""); std::vector<std::vector<int>> after(1, std::vector<int>(n + 1)); for (int s = 0; s <= n; s++) { after[0][s] = obs(s); cls[s] = after[0][s]; }
		size_t nc0 = std::set<int>(cls.begin(), cls.end()).size(); for (size_t wi = 0; wi < W.size() && nc0 < (size_t) n + 1; wi++) for (unsigned char c : reps) { if (nc0 == (size_t) n + 1) break; std::vector<int> o(n + 1); for (int s = 0; s <= n; s++) o[s] = after[wi][to(s, c)];
			std::map<std::pair<int, int>, int> m; std::vector<int> nc(n + 1); for (int s = 0; s <= n; s++) nc[s] = m.emplace(std::make_pair(cls[s], o[s]), (int) m.size()).first->second;
			if (m.size() > nc0) { nc0 = m.size(); W.push_back((char) c + W[wi]); after.push_back(o); cls = nc; } }
		nclasses = 1 + *std::max_element(cls.begin(), cls.end()); std::vector<int> one(nclasses, -1); for (int s = 0; s <= n; s++) if (one[cls[s]] < 0) one[cls[s]] = s;
		ident.resize(nclasses); for (int k = 0; k < nclasses; k++) { std::vector<int> left; for (int j = 0; j < nclasses; j++) if (j != k) left.push_back(j); while (!left.empty()) { int best = -1; size_t bn = 0; for (size_t w = 0; w < W.size(); w++) { size_t d = 0; for (int j : left) d += after[w][one[j]] != after[w][one[k]]; if (d > bn) bn = d, best = w; } if (best < 0) break; ident[k].push_back(best); std::vector<int> r; for (int j : left) if (after[best][one[j]] == after[best][one[k]]) r.push_back(j); left = r; } if (ident[k].empty()) ident[k].push_back(0); }
	}
	std::vector<char> reach;
	// f(string) returns false to stop; bytes: which bytes are tried from each state
	template <class F> bool each(const Nfa &a, const Table &t, const std::vector<unsigned char> &bytes, F f, int only = -1, int step = 1) const {
		int n = a.n(); for (int s = 0; s < n; s++) if (reach[s] && (only < 0 || s == only) && s % step == 0) { for (auto &w : W) if (!f(access[s] + w)) return false; for (unsigned char b : bytes) { int x = t[s][b] < 0 ? n : t[s][b]; std::string p = access[s] + (char) b; for (int w : ident[cls[x]]) if (!f(p + W[w])) return false; } } return true;
	}
};
static inline std::vector<unsigned char> all_bytes() { std::vector<unsigned char> v; for (int c = 0; c < 256; c++) v.push_back(c); return v; }
static inline std::vector<unsigned char> edge_bytes(const Table &t) { // bytes at which some state's transitions change, and their neighbours
	std::set<int> s{0, 255, 127, 128}; for (auto &r : t) for (int c = 1; c < 256; c++) if (r[c] != r[c - 1]) { s.insert(c - 1); s.insert(c); } return std::vector<unsigned char>(s.begin(), s.end()); }
