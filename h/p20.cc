// P20: PCRE patterns compile to the language PCRE defines.
#include "rx.h"
static int nth = 0;
static bool nullable(const R &r) {
	switch (r->k) {
	case X_SET: case X_DOT: return false; case X_EMPTY: case X_FLAG: return true;
	case X_GRP: case X_SCOPE: return nullable(r->c[0]); case X_REP: return r->lo == 0 || nullable(r->c[0]);
	case X_CAT: for (auto &c : r->c) if (!nullable(c)) return false; return true;
	case X_ALT: for (auto &c : r->c) if (nullable(c)) return true; return false;
	}
	return true;
}
// The one construct the library declares unsupported: an alternation with an alternative which can be empty, within "+".
static bool declared(const R &r, bool plus = false) {
	if (r->k == X_ALT && plus) for (auto &c : r->c) if (nullable(c)) return true;
	bool p = plus; if (r->k == X_REP) p = plus || r->hi < 0;
	for (auto &c : r->c) if (declared(c, p)) return true;
	return false;
}
// other ways to write the same atom
static std::string spell(const Rx &r, int how) {
	if (r.k == X_DOT) return ".";
	if (r.txt.size() == 1 && isalpha((unsigned char) r.txt[0])) {
		unsigned char c = r.txt[0];
		switch ((how + nth++) % 7) {
		case 0: return r.txt;
		case 1: return fmt("\\x%02x", c);
		case 2: return fmt("[%c]", c);
		case 3: return fmt("\\x{%x}", c);
		case 4: return fmt("\\Q%c\\E", c);
		case 5: return fmt("\\o{%o}", c);
		case 6: return fmt("[%c-%c]", c, c);
		}
	}
	if (r.txt == "[^a]") switch ((how + nth++) % 3) { case 0: return r.txt; case 1: return "[^aa]"; case 2: return "[^\\x61]"; }
	return r.txt;
}
static void one(const R &r, int flags, int how, bool variants) {
	Speller sp; static const char *const opens[] = { "(", "(?:", "(?<n>" };
	sp.open = how % 5 == 2 ? opens[1] : opens[0]; sp.style = variants ? how % 3 : 0;
	if (variants) { nth = 0; sp.set = [how](const Rx &x) { return spell(x, how); }; }
	std::string t = rx_text(r, sp);
	int fl = (flags & RE_ICASE ? F_I : 0) | (flags & RE_SINGLE ? F_S : 0);
	if (variants && how % 11 == 3) { // white space and comments mean nothing in extended mode
		std::string u; bool q = false, cls = false, brace = false;
		for (size_t i = 0; i < t.size(); i++) {
			if (t.compare(i, 2, "\\Q") == 0) q = true;
			if (t.compare(i, 2, "\\E") == 0) q = false;
			u += t[i];
			if (t[i] == '[') cls = true; if (t[i] == ']') cls = false; if (t[i] == '{') brace = true; if (t[i] == '}') brace = false;
			if (q || cls || brace || t[i] == '\\' || (i && t[i - 1] == '\\') || (t[i] == '(' && i + 1 < t.size() && t[i + 1] == '?') || (t[i] == '?' && i && t[i - 1] == '(')) continue;
			if (i && isalnum((unsigned char) t[i]) && t.find('\\') != std::string::npos) continue;
			char nx = i + 1 < t.size() ? t[i + 1] : 0;
			if (nx == '*' || nx == '+' || nx == '?' || nx == '{') continue;
			u += i % 3 == 0 ? " " : i % 3 == 1 ? "\t" : "#c\n";
		}
		t = u; flags |= RE_EXTENDED;
	} else if (variants && how % 11 == 5) t = "(?#note)" + t;
	if (!H.begin([&] { return "pcre flags " + std::to_string(flags) + " " + show(t); })) return;
	R m = rx_resolve(r, fl);
	RxOpt o; o.anchored_start = o.anchored_end = flags & RE_ANCHORED; o.end_nl = !(flags & RE_ANCHORED);
	Nfa want = rx_nfa(m, o);
	if (flags & RE_REVERSE) want = ref_reverse(want);
	Comp c = rx_comp(RE_PCRE, t, flags);
	if (!c.f) { if (c.e.e == RE_EUNSUPPORTED && declared(r)) { H.counters["unsupported"]++; return; } H.fail("refused", fmt("error %s", re_strerror(c.e.e))); return; }
	H.nontrivial++;
	Nfa g = extract(c.f);
	Diff d = compare(want, g, CMP_END, 20000);
	if (d.differ) H.fail("language", d.why);
	fsm_free(c.f);
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	Bytes A, B, NA; A.set('a'); B.set('b'); NA = ~A;
	auto neg = std::make_shared<Rx>(); neg->k = X_SET; neg->set = NA; neg->txt = "[^a]"; neg->type = 1;
	auto run = [&](RxEnum &E, int N, const std::vector<int> &modes, bool variants) {
		for (int n = 1; n <= N; n++) if (!E.each(n, [&](const R &r) {
			for (int fl : modes) { if (H.stop()) return false; if (!H.take()) continue; one(r, fl, (int) (H.idx % 1009), variants); }
			return true; })) break;
	};
	int N = lite ? 4 : T ? 8 : 6;
	{ RxEnum E; E.atoms = { rx_set(A, "a"), rx_set(B, "b"), rx_empty(), rx_dot() }; E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, 2}, {1, 3}, {0, 0} }; run(E, N, { 0 }, true); }
	{ RxEnum E; E.atoms = { rx_set(A, "a"), rx_set(B, "b"), rx_empty(), neg }; E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, -1}, {0, 2}, {1, 1} };
	  run(E, N - 1, { RE_ANCHORED, RE_ICASE, RE_ANCHORED | RE_ICASE | RE_SINGLE, RE_REVERSE | RE_ANCHORED }, true); }
	{ Bytes none; auto nil = std::make_shared<Rx>(); nil->k = X_SET; nil->set = none; nil->txt = "[^\\x00-\\xff]"; nil->type = 1; // a class with no members
	  RxEnum E; E.atoms = { rx_set(A, "a"), rx_empty(), nil }; E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, 2}, {0, 2} }; run(E, N - 1, { 0, RE_ANCHORED }, false); }
	// counts beyond what the sizes above can reach
	for (auto &e : { rx_set(A, "a"), rx_n(X_CAT, { rx_set(A, "a"), rx_set(B, "b") }), rx_n(X_ALT, { rx_set(A, "a"), rx_empty() }), rx_rep(rx_set(A, "a"), 0, -1), rx_n(X_CAT, { rx_set(A, "a"), rx_rep(rx_set(B, "b"), 0, -1) }) })
		for (int lo = 0; lo <= 9; lo++) for (int hi = -1; hi <= (T ? 14 : 10); hi++) { if (hi >= 0 && hi < lo) continue; for (int fl : { 0, (int) RE_ANCHORED }) for (int w = 0; w < 4; w++) {
			if (H.stop()) break;
			if (!H.take()) continue;
			R x = rx_rep(e, lo, hi), b = rx_set(B, "b");
			if (w == 3 && !fl) continue;
			one(w == 0 ? x : w == 1 ? rx_n(X_CAT, { x, b }) : w == 2 ? rx_n(X_ALT, { b, x }) : rx_rep(rx_n(X_CAT, { x, b }), 2, 3), fl, 0, false);
		} }
	// inline flags
	{ RxEnum E; E.atoms = { rx_set(A, "a"), rx_dot(), rx_flag(F_I, 0), rx_flag(0, F_I), rx_flag(F_S, 0), rx_scope(F_I, 0, rx_set(A, "a")), rx_scope(0, F_I, rx_n(X_CAT, { rx_set(A, "a"), rx_dot() })), neg, rx_empty() };
	  E.reps = { {0, 1} }; run(E, N - 1, { RE_ANCHORED, RE_ICASE }, false); }
	return H.finish();
}
