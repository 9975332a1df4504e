// P27: string sets match exactly the given strings.
#include "ref.h"
extern "C" {
#include <re/strings.h>
}
enum { NOIDS, DISTINCT, SHARED, TWICE, SOME }; // which ids: none; by position; by position modulo 2; each string twice with two ids; every other string has one
typedef std::vector<std::string> W;
static const char *fname[] = { "unanchored", "left", "right", "both", "ac", "ac left" };
static bool ids_of(int mode, size_t i, int k, fsm_end_id_t *id) {
	if (mode == NOIDS || (mode == SOME && i % 2)) return false;
	*id = mode == SHARED ? i % 2 : mode == TWICE ? 1000 - i * 2 - k : i * 3; return true;
}
static void one(const W &w, int flags, int mode, int path) {
	if (!H.begin([&] { std::string o = std::string(fname[flags]) + fmt(" ids %d", mode); for (auto &x : w) { o += " " + show(x); if (o.size() > 400) { o += "..."; break; } } return o; })) return;
	int fl = (flags & 1 ? RE_STRINGS_ANCHOR_LEFT : 0) | (flags & 2 ? RE_STRINGS_ANCHOR_RIGHT : 0) | (flags & 4 ? RE_STRINGS_AC_AUTOMATON : 0);
	struct fsm *f = nullptr; bool cstr = true; for (auto &x : w) if (x.find('\0') != std::string::npos) cstr = false;
	if (mode == NOIDS && path == 1 && cstr) {
		std::vector<const char *> v; for (auto &x : w) v.push_back(x.c_str());
		f = re_strings(nullptr, v.data(), v.size(), (enum re_strings_flags) fl);
	} else {
		struct re_strings *g = re_strings_new(); if (!g) { H.fail("new", "NULL"); return; }
		for (size_t i = 0; i < w.size(); i++) for (int k = 0; k < (mode == TWICE ? 2 : 1); k++) {
			fsm_end_id_t id = 0; bool has = ids_of(mode, i, k, &id); std::string copy = w[i]; // not kept
			int r = path == 2 && cstr ? re_strings_add_str(g, copy.c_str(), has ? &id : nullptr) : re_strings_add_raw(g, copy.data(), copy.size(), has ? &id : nullptr);
			if (!r) H.fail("add", show(w[i]));
		}
		f = re_strings_build(g, nullptr, (enum re_strings_flags) fl);
		re_strings_free(g);
	}
	if (!f) { H.fail("build", "NULL"); return; }
	H.nontrivial++;
	if (!fsm_all(f, fsm_isdfa)) H.fail("dfa", "not a DFA");
	Nfa want; Bytes all; all.set(); int s = want.add(); want.start = s; if (!(flags & 1)) { int l = want.add(); want.set(l, l, all); want.eps(s, l); s = l; }
	bool ra = flags & 6; int absorb = -1;
	std::map<std::string, int> at; at[""] = s;
	for (size_t i = 0; i < w.size(); i++) {
		int q = s; std::string p; for (char c : w[i]) { p += c; auto it = at.find(p); int t; if (it == at.end()) { t = at[p] = want.add(); want.lit(q, t, c); } else t = it->second; q = t; }
		std::set<uint64_t> ids; for (int k = 0; k < (mode == TWICE ? 2 : 1); k++) { fsm_end_id_t id; if (ids_of(mode, i, k, &id)) ids.insert(id); }
		if (ra) { int e = q; if (q == s) { e = want.add(); want.eps(q, e); } want.s[e].end = true; want.s[e].ids.insert(ids.begin(), ids.end()); }
		else if (ids.empty()) { if (absorb < 0) { absorb = want.add(true); want.set(absorb, absorb, all); } want.eps(q, absorb); }
		else { int e = want.add(true); want.s[e].ids = ids; want.set(e, e, all); want.eps(q, e); }
	}
	Diff d = compare(want, extract(f), mode == NOIDS ? CMP_END : CMP_END | CMP_IDS, 50000);
	if (d.differ) H.fail("language", d.why);
	fsm_free(f);
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite, known = H.arg.count("known-ids"), ok = true;
	auto words = [](const std::string &al, int lo, int hi) { W v; all_strings(std::vector<unsigned char>(al.begin(), al.end()), hi, [&](const std::string &s) { if ((int) s.size() >= lo) v.push_back(s); return true; }); return v; };
	// every subset of the words, in two orders
	auto subsets = [&](const W &v, std::vector<std::pair<int, int>> combos, unsigned maxbits) {
		for (unsigned m = 0; ok && m < 1u << v.size(); m++) { if ((unsigned) __builtin_popcount(m) > maxbits) continue; for (auto &c : combos) {
			if (H.stop()) { ok = false; return; } if (!H.take()) continue;
			W w; for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) w.push_back(v[i]);
			if (H.idx % 3 == 1) std::reverse(w.begin(), w.end());
			one(w, c.first, c.second, H.idx % 5 % 3); } } };
	std::vector<std::pair<int, int>> plain, rids, lids;
	for (int f = 0; f < 6; f++) { plain.push_back({f, NOIDS}); for (int m = DISTINCT; m <= SOME; m++) (f & 6 ? rids : lids).push_back({f, m}); }
	if (known) { // end ids without the right anchored
		subsets(words("ab", 0, 2), lids, 99); return H.finish();
	}
	W w2 = words("ab", 0, 2), w3 = words("ab", 0, 3), c2 = words("abc", 0, 2), odd = words(std::string("\0\xff", 2), 0, 2);
	auto both = plain; both.insert(both.end(), rids.begin(), rids.end());
	subsets(w2, both, 99); subsets(odd, both, 99);
	subsets(w3, both, lite ? 2 : T ? 99 : 5);
	subsets(c2, both, lite ? 1 : T ? 99 : 5);
	subsets(words("ab", 2, 4), both, lite ? 1 : T ? 4 : 3);
	// every byte
	for (int c = 0; ok && c < 256; c++) for (auto &k : both) { if (H.stop()) { ok = false; break; } if (!H.take()) continue; std::string s(1, (char) c); one({"a" + s, s + s, s}, k.first, k.second, H.idx % 3); }
	// across allocation sizes: many strings, long strings
	for (int n : {100, 255, 256, 257, 600}) for (auto &k : both) { if (!ok || lite || H.stop()) { ok = false; break; } if (!H.take()) continue;
		W w; for (int i = 0; i < n / 8; i++) { std::string s; int x = i * 7919 + n; for (int j = 0; j < 9; j++) { s += 'a' + x % 3; x = x / 3 + j; } w.push_back(s); } w.push_back(std::string(n, 'a')); one(w, k.first, k.second, H.idx % 3); }
	return H.finish();
}
