// Enumerations of automata. Every generator visits a fixed, finite list in a fixed order.
#pragma once
#include "ref.h"

struct Alpha { const char *name; std::vector<Bytes> sym; };
static inline Bytes B1(int c) { Bytes b; b.set(c); return b; }
static inline Bytes BR(int lo, int hi) { Bytes b; for (int i = lo; i <= hi; i++) b.set(i); return b; }
static inline Bytes BS(const char *s) { Bytes b; for (; *s; s++) b.set((unsigned char) *s); return b; }
// symbol maps: what "letter 0", "letter 1" of the enumerated automata stand for. Chosen around the code's own
// boundaries: sign bit, 64-bit bitmap words, overlapping classes, the whole byte range.
static inline const std::vector<Alpha> &alphas() {
	static std::vector<Alpha> v;
	if (v.empty()) {
		v.push_back({"a/b", {B1('a'), B1('b')}});
		v.push_back({"00/ff", {B1(0), B1(255)}});
		v.push_back({"3f/40", {B1(0x3f), B1(0x40)}});
		v.push_back({"ab/bc", {BS("ab"), BS("bc")}});
		v.push_back({"any/x", {BR(0, 255), B1('x')}});
		v.push_back({"7f/80", {B1(0x7f), B1(0x80)}});
		v.push_back({"0-7f/40-ff", {BR(0, 0x7f), BR(0x40, 0xff)}});
		v.push_back({"\\n/0-9", {B1('\n'), BS("0123456789")}});
	}
	return v;
}

// All automata with n states and at most k edges over nsym letters (+ epsilon if eps), all end sets.
// Start is state 0 for even cases and the last state for odd ones (state numbering matters to the code).
// cb(build) is called only for taken cases.
template <class F> static inline void enum_nfas(int n, int k, int nsym, bool eps, F cb, bool noend = true) {
	int L = nsym + (eps ? 1 : 0); int U = n * n * L;
	std::vector<int> pick;
	uint64_t serial = 0;
	std::function<void(int)> rec = [&](int from) {
		for (int ends = noend ? 0 : 1; ends < (1 << n); ends++) {
			serial++;
			if (H.stop()) return;
			if (!H.take()) continue;
			const Alpha &al = alphas()[(serial / 3) % alphas().size()];
			Nfa a; for (int i = 0; i < n; i++) a.add(ends >> i & 1);
			a.start = (serial & 1) ? n - 1 : 0;
			for (int u : pick) { int l = u % L, t = u / L % n, s = u / L / n; if (l == nsym) a.eps(s, t); else a.set(s, t, al.sym[l]); }
			cb(a);
		}
		if ((int) pick.size() == k) return;
		for (int u = from; u < U; u++) { if (H.stop()) return; pick.push_back(u); rec(u + 1); pick.pop_back(); }
	};
	rec(0);
}
// All (partial) DFAs with n states over nsym letters, start 0, all end sets; unreachable states included.
template <class F> static inline void enum_dfas(int n, int nsym, F cb, bool reachable = false) {
	int D = n * nsym; std::vector<int> t(D, 0);
	uint64_t serial = 0;
	for (;;) {
		bool ok = true;
		if (reachable) { // canonical: states appear in breadth-first order, so each machine once per isomorphism class
			int nxt = 1; for (int s = 0; s < n && ok; s++) { if (s >= nxt) ok = false; for (int l = 0; l < nsym && ok; l++) { int x = t[s * nsym + l] - 1; if (x > nxt) ok = false; else if (x == nxt) nxt++; } }
			if (nxt != n) ok = false;
		}
		if (ok) for (int ends = 0; ends < (1 << n); ends++) {
			serial++;
			if (H.stop()) return;
			if (!H.take()) continue;
			const Alpha *al = &alphas()[serial % alphas().size()];
			if (al->sym.size() >= 2 && nsym >= 2 && (al->sym[0] & al->sym[1]).any()) al = &alphas()[serial / 8 % 3];
			Nfa a; for (int i = 0; i < n; i++) a.add(ends >> i & 1);
			a.start = 0;
			for (int s = 0; s < n; s++) for (int l = 0; l < nsym; l++) if (t[s * nsym + l]) a.set(s, t[s * nsym + l] - 1, nsym == 2 ? al->sym[l] : B1('a' + l));
			cb(a);
		}
		int i = 0; while (i < D && ++t[i] > n) t[i++] = 0;
		if (i == D) break;
	}
}

// ---- parametric families, swept over sizes which cross the growth thresholds in the code ----
static inline uint64_t lcg(uint64_t &s) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return s >> 33; }
static inline void permute(Nfa &a, int how) { // renumber states: 1 reversed, 2 rotated by one, 3 stride
	int n = a.n(); if (n < 2 || how == 0) return;
	std::vector<int> p(n);
	for (int i = 0; i < n; i++) {
		if (how == 1) p[i] = n - 1 - i;
		else if (how == 2) p[i] = (i + 1) % n;
		else { int st = 7; while (std::__gcd(st, n) != 1) st++; p[i] = (int) ((long long) i * st % n); }
	}
	Nfa b; b.s.resize(n);
	for (int i = 0; i < n; i++) { auto st = a.s[i]; for (auto &e : st.e) e.second = p[e.second]; for (auto &t : st.eps) t = p[t]; b.s[p[i]] = st; }
	b.start = a.start < 0 ? -1 : p[a.start]; a = b;
}
static const int NFAMILY = 24;
static const char *const family_name[NFAMILY] = { "chain", "cycle", "epschain", "epsfan", "nth-from-end", "bytefan", "trie", "mesh", "overlap", "coprime",
	"nested-ranges", "lcg-dfa", "lcg-nfa", "anyloop", "epscycle", "comb", "epsdag", "ladder", "sink", "multi-end-chain", "bytefan-shared", "epsladder", "lcg-eps", "kmp" };
// maximum sensible N for each family
static const int family_max[NFAMILY] = { 400, 400, 300, 300, 8, 256, 300, 140, 70, 30, 80, 300, 40, 300, 200, 200, 60, 200, 300, 300, 256, 60, 24, 120 };
static inline Nfa family(int f, int N) {
	Nfa a; auto add = [&](bool e = false) { return a.add(e); };
	switch (f) {
	case 0: { int p = add(); a.start = p; for (int i = 0; i < N; i++) { int q = add(i == N - 1); a.lit(p, q, 'a' + i % 3); p = q; } if (!N) a.s[0].end = true; break; }
	case 1: for (int i = 0; i < N; i++) add(i == 0); a.start = 0; for (int i = 0; i < N; i++) a.lit(i, (i + 1) % N, i & 1 ? 'b' : 'a'); break;
	case 2: { int p = add(); a.start = p; for (int i = 0; i < N; i++) { int q = add(i == N - 1); a.eps(p, q); if (i % 3 == 0) a.lit(q, p, 'a' + i % 5); p = q; } break; }
	case 3: { int s = add(); a.start = s; int e = add(true); for (int i = 0; i < N; i++) { int q = add(i % 7 == 0); a.eps(s, q); a.lit(q, e, (unsigned char) (i * 37)); a.lit(e, q, (unsigned char) (i * 11)); } break; }
	case 4: { int s = add(); a.start = s; a.lit(s, s, 'a'); a.lit(s, s, 'b'); int p = s; for (int i = 0; i < N; i++) { int q = add(i == N - 1); a.lit(p, q, 'a'); if (i) a.lit(p, q, 'b'); p = q; } break; }
	case 5: { int s = add(); a.start = s; for (int i = 0; i < N; i++) { int q = add(true); a.lit(s, q, (unsigned char) (i * 101)); a.lit(q, q, (unsigned char) i); } break; }
	case 6: { int s = add(); a.start = s; for (int i = 0; i < N; i++) { int p = s; for (int j = 0, x = i + 1; x; j++, x >>= 1) { int q = add(); a.lit(p, q, x & 1 ? 'y' : 'x'); p = q; } a.s[p].end = true; } break; }
	case 7: for (int i = 0; i < N; i++) add(i % 5 == 4 || i == N - 1); a.start = 0; for (int i = 0; i < N; i++) { a.lit(i, (i + 1) % N, 'a'); a.lit(i, (i * 2) % N, 'b'); a.lit(i, (i * 3 + 1) % N, 'c'); } break;
	case 8: { int s = add(); a.start = s; for (int i = 0; i < N; i++) { int p = s; for (int j = 0; j <= i % 9; j++) { int q = add(j == i % 9); a.lit(p, q, 'a'); if (j == i % 9) a.lit(q, q, i & 1 ? 'a' : 'b'); p = q; } } break; }
	case 9: { int s = add(); a.start = s; int pr[] = { 2, 3, 5, 7, 11 }; for (int k = 0; k < 3; k++) { int L = pr[k] + (N % 3 == k ? N / 6 : 0); int b = a.n(); for (int i = 0; i < L; i++) add(i == 0); for (int i = 0; i < L; i++) a.lit(b + i, b + (i + 1) % L, 'a'); a.eps(s, b); } break; }
	case 10: { int s = add(); a.start = s; for (int i = 0; i < N; i++) { int q = add(i % 2 == 0); a.set(s, q, BR(i / 2, 255 - (i + 1) / 2)); if (i) a.set(q, q - 1, BR(0, i)); } break; }
	case 11: { uint64_t r = N * 977 + 5; for (int i = 0; i < N; i++) add(lcg(r) % 4 == 0); a.start = 0; for (int i = 0; i < N; i++) for (int l = 0; l < 3; l++) if (lcg(r) % 8) { int x = (int) (lcg(r) % N); a.lit(i, x, "a\xff\x40"[l]); } break; }
	case 12: { uint64_t r = N * 131 + 7; for (int i = 0; i < N; i++) add(lcg(r) % 5 == 0); a.start = 0; for (int i = 0; i < N; i++) { a.lit(i, (i + 1) % N, 'a'); if (lcg(r) % 3 == 0) a.lit(i, (int) (lcg(r) % N), lcg(r) & 1 ? 'a' : 'b'); } break; }
	case 13: { int p = add(); a.start = p; for (int i = 0; i < N; i++) { int q = add(i == N - 1); a.set(p, q, BR(0, 255)); if (i == 5 && N <= 40) a.lit(q, a.start, 'z'); p = q; } break; }
	case 14: for (int i = 0; i < N; i++) add(i == N / 2); a.start = 0; for (int i = 0; i < N; i++) { a.eps(i, (i + 1) % N); if (i % 4 == 0) a.lit(i, (i + 2) % N, (unsigned char) i); } break;
	case 15: { int p = add(); a.start = p; for (int i = 0; i < N; i++) { int q = add(), t = add(true); a.lit(p, q, 'a'); a.set(p, t, BS("bc")); a.eps(q, t); p = q; } break; }
	case 16: for (int i = 0; i < N; i++) add(i == N - 1); a.start = 0; for (int i = 0; i < N; i++) { for (int j = i + 1; j < N; j++) if ((i * j) % 3 == 0) a.eps(i, j); a.lit(i, N - 1 - i, (unsigned char) (i % 11 + 'a')); } break;
	case 17: { int p = add(), q = add(); a.start = p; for (int i = 0; i < N; i++) { int p2 = add(), q2 = add(i == N - 1 || i % 6 == 0); a.lit(p, p2, 'a'); a.lit(q, q2, 'a'); a.lit(p, q2, 'b'); a.lit(q, p2, 'b'); p = p2; q = q2; } break; }
	case 18: { int s = add(); a.start = s; int k = add(); for (int i = 0; i < N; i++) { int q = add(i % 2); a.lit(s, q, (unsigned char) i); a.set(q, k, BR(0, 127)); a.set(q, q, BR(128, 255)); } a.set(k, k, BR(0, 255)); break; }
	case 19: { int p = add(true); a.start = p; for (int i = 0; i < N; i++) { int q = add(true); a.lit(p, q, 'a'); if (i % 5 == 0) a.lit(p, q, 'b'); p = q; } break; }
	case 20: { int s = add(); a.start = s; int m[4]; for (int k = 0; k < 4; k++) m[k] = add(k & 1); for (int i = 0; i < N; i++) { a.lit(s, m[(i / 3) % 4], (unsigned char) i); a.lit(m[i % 4], m[(i * 7 / 5) % 4], (unsigned char) (i * 13)); } break; }
	case 21: { int p = add(); a.start = p; for (int i = 0; i < N; i++) { int q = add(), r = add(i == N - 1); a.eps(p, q); a.eps(p, r); a.lit(q, r, 'a' + i % 2); a.eps(r, p); p = r; } break; }
	case 22: { uint64_t r = N * 31 + 11; for (int i = 0; i < N; i++) add(lcg(r) % 6 == 0); a.start = 0; for (int i = 0; i < N; i++) { a.lit(i, (int) (lcg(r) % N), lcg(r) & 1 ? 'a' : 'b'); if (lcg(r) % 2) a.eps(i, (int) (lcg(r) % N)); a.lit(i, (i + 1) % N, 'c'); } break; }
	case 23: { int s = add(); a.start = s; a.set(s, s, BR(0, 255)); int p = s; for (int i = 0; i < N; i++) { int q = add(i == N - 1); a.lit(p, q, "aab"[(i * i) % 3]); p = q; } break; }
	}
	return a;
}
// sizes used in sweeps
static inline std::vector<int> sweep(int max, bool dense) {
	std::vector<int> v; int pts[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 48, 62, 63, 64, 65, 66, 80, 99, 100, 101, 120, 126, 127, 128, 129, 130, 160, 200, 254, 255, 256, 257, 258, 300, 350, 400 };
	if (dense) for (int i = 1; i <= max; i++) v.push_back(i);
	else for (int x : pts) if (x <= max) v.push_back(x);
	return v;
}
// all (family, size, renumbering) cases
template <class F> static inline void enum_families(F cb, int capN = 1000, bool dense = false, int perms = 4, uint32_t mask = 0xffffffff) {
	for (int f = 0; f < NFAMILY; f++) { if (!(mask >> f & 1)) continue; for (int N : sweep(std::min(capN, family_max[f]), dense)) for (int p = 0; p < perms; p++) {
		if (H.stop()) return;
		if (!H.take()) continue;
		Nfa a = family(f, N); permute(a, p);
		cb(a, fmt("%s(%d) perm %d", family_name[f], N, p));
	} }
}
// give end states ids in one of several patterns
static inline void assign_ids(Nfa &a, int pattern) {
	int k = 0;
	for (size_t i = 0; i < a.n(); i++) if (a.s[i].end) {
		k++;
		switch (pattern) {
		case 1: a.s[i].ids = { (uint64_t) k }; break;                       // distinct
		case 2: a.s[i].ids = { 7 }; break;                                 // all the same
		case 3: if (k & 1) a.s[i].ids = { 0, 0xffffffffu }; break;          // some have none
		case 4: for (int j = 0; j < 5 + k % 3; j++) a.s[i].ids.insert((uint64_t) (k * 3 + j * 5) % 17); break;
		case 5: for (int j = 0; j < 70; j++) a.s[i].ids.insert((uint64_t) j * 3 + k % 2); break; // over the small-buffer sizes
		case 6: a.s[i].ids = { (uint64_t) (k % 2) }; break;
		}
	}
}
// DFA helper: reference determinisation of any family member with only live states kept
static inline Nfa ref_trim(const Nfa &d) {
	int n = d.n(); std::vector<char> r(n, 0), l(n, 0); std::vector<int> st;
	if (d.start >= 0) { r[d.start] = 1; st.push_back(d.start); }
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &e : d.s[x].e) if (!r[e.second]) { r[e.second] = 1; st.push_back(e.second); } for (int t : d.s[x].eps) if (!r[t]) { r[t] = 1; st.push_back(t); } }
	for (int i = 0; i < n; i++) l[i] = d.s[i].end;
	for (bool ch = true; ch; ) { ch = false; for (int i = 0; i < n; i++) if (!l[i]) { for (auto &e : d.s[i].e) if (l[e.second]) l[i] = 1; for (int t : d.s[i].eps) if (l[t]) l[i] = 1; if (l[i]) ch = true; } }
	std::vector<int> m(n, -1); Nfa o;
	for (int i = 0; i < n; i++) if ((r[i] && l[i]) || i == d.start) { m[i] = o.add(d.s[i].end); o.s[m[i]].ids = d.s[i].ids; o.s[m[i]].eager = d.s[i].eager; }
	for (int i = 0; i < n; i++) if (m[i] >= 0) { for (auto &e : d.s[i].e) if (m[e.second] >= 0 && r[e.second] && l[e.second]) o.set(m[i], m[e.second], e.first); for (int t : d.s[i].eps) if (m[t] >= 0) o.eps(m[i], m[t]); }
	o.start = d.start < 0 ? -1 : m[d.start];
	return o;
}
static std::vector<Nfa> collect(int n, int k, int nsym, bool eps, bool noend = true) {
	// an enumeration of its own, not sharded
	std::vector<Nfa> v; int L = nsym + (eps ? 1 : 0), U = n * n * L; std::vector<int> pick; uint64_t serial = 0;
	std::function<void(int)> rec = [&](int from) {
		for (int ends = noend ? 0 : 1; ends < (1 << n); ends++) {
			serial++; Nfa a; for (int i = 0; i < n; i++) a.add(ends >> i & 1);
			a.start = (serial & 1) ? n - 1 : 0; const Alpha &al = alphas()[serial % 3 == 0 ? 3 : 0];
			for (int u : pick) { int l = u % L, t = u / L % n, s = u / L / n; if (l == nsym) a.eps(s, t); else a.set(s, t, al.sym[l]); }
			v.push_back(a);
		}
		if ((int) pick.size() == k) return;
		for (int u = from; u < U; u++) { pick.push_back(u); rec(u + 1); pick.pop_back(); }
	};
	rec(0); return v;
}
