// P24: native, glob, like, literal and sql dialects denote the right language.
#include "rx.h"
static Bytes S(const std::string &s) { Bytes b; for (unsigned char c : s) b.set(c); return b; }
static Bytes rng(int a, int z) { Bytes b; for (int c = a; c <= z; c++) b.set(c); return b; }
static Bytes B(int c) { Bytes b; b.set(c & 255); return b; }
static std::string C(int c) { return std::string(1, (char) c); }
static Bytes all() { Bytes b; b.set(); return b; }
static R one(const Bytes &b) { return rx_set(b, ""); }
static R neg(const Bytes &b, const std::string &t) { auto x = std::make_shared<Rx>(); x->k = X_SET; x->set = ~b; x->type = 1; x->txt = t; return x; }
static const char *dname(enum re_dialect d) { return d == RE_LIKE ? "like" : d == RE_LITERAL ? "literal" : d == RE_GLOB ? "glob" : d == RE_NATIVE ? "native" : "sql"; }
static Nfa ref_reversed(const Nfa &a) { return ref_reverse(a); }
static bool chk(enum re_dialect d, const std::string &t, int flags, const R &want, const RxOpt &o, bool may_refuse = false) {
	if (H.stop()) return false;
	if (!H.take()) return true;
	if (!H.begin([&] { return std::string(dname(d)) + fmt(" flags %d ", flags) + show(t); })) return false;
	Comp c = rx_comp(d, t, flags);
	if (!c.f) { if (!(may_refuse && c.e.e == RE_EUNSUPPORTED)) H.fail("refused", fmt("error %s", re_strerror(c.e.e))); else H.counters["unsupported"]++; return true; }
	int f = (flags & RE_ICASE ? F_I : 0) | (flags & RE_SINGLE || d != RE_NATIVE ? F_S : 0);
	R w = rx_resolve(want, f); Nfa g = extract(c.f), n = rx_nfa(w, o); H.nontrivial++;
	if (flags & RE_REVERSE) n = ref_reversed(n);
	Diff x = compare(n, g, CMP_END, 20000); if (x.differ) H.fail("language", x.why);
	fsm_free(c.f); return true;
}
static const RxOpt ANCH = {true, true, false};
// glob and like: a pattern is a sequence of atoms
static bool wild(enum re_dialect d, char any, char many, int L, bool T) {
	auto rd = [&](const std::string &s) { std::vector<R> v; for (unsigned char c : s) v.push_back(c == (unsigned char) any ? one(all()) : c == (unsigned char) many ? rx_rep(one(all()), 0, -1) : one(B(c))); return v.empty() ? rx_empty() : rx_n(X_CAT, v); };
	bool ok = true;
	all_strings({(unsigned char) any, (unsigned char) many, 'a', 'b', '\n'}, L, [&](const std::string &s) { for (int f : {0, (int) RE_REVERSE}) ok = ok && (f && s.size() > 4 ? true : chk(d, s, f, rd(s), ANCH)); return ok; });
	std::vector<unsigned char> odd = {(unsigned char) any, (unsigned char) many, 0, 'A', 'z', '\\', '[', ']', '?', '*', '_', '%', '.', '^', '$', '(', 0x80, 0xff, '\n', '!', '{', '|', '+', '#'};
	all_strings(odd, T ? 4 : 3, [&](const std::string &s) { ok = ok && chk(d, s, s.size() & 1 ? RE_ICASE : 0, rd(s), ANCH); return ok; });
	for (int c = 0; c < 256 && ok; c++) for (auto &s : {C(c), C(c) + C(any), C(many) + C(c), C(c) + C(many) + C(c), C(c) + C(c ^ 0x20)}) for (int f : {0, (int) RE_ICASE}) ok = ok && chk(d, s, f, rd(s), ANCH);
	return ok;
}
static bool literal(bool T) {
	auto rd = [&](const std::string &s) { std::vector<R> v; for (unsigned char c : s) v.push_back(one(B(c))); return v.empty() ? rx_empty() : rx_n(X_CAT, v); };
	bool ok = true;
	for (int c = 0; c < 256 && ok; c++) { for (int f : {0, (int) RE_ICASE, (int) RE_REVERSE}) ok = ok && chk(RE_LITERAL, C(c), f, rd(C(c)), ANCH); for (int e = 0; e < 256 && ok; e++) if (T || (c + e) % 3 == 0) ok = chk(RE_LITERAL, C(c) + C(e), (c ^ e) & 4 ? RE_ICASE : 0, rd(C(c) + C(e)), ANCH); }
	all_strings({0, 'a', 'Z', '.', '*', '\\', '[', '(', '|', 0xff, '\n', '^', '$', '?'}, T ? 4 : 3, [&](const std::string &s) { for (int f : {0, (int) RE_ICASE, (int) RE_REVERSE}) ok = ok && chk(RE_LITERAL, s, f, rd(s), ANCH); return ok; });
	std::string big; for (int i = 0; i < 600 && ok; i++) { big += C('a' + i % 7 + (i % 11 == 0) * 7); ok = chk(RE_LITERAL, big, 0, rd(big), ANCH); }
	return ok;
}
static bool nullable(const R &r) {
	switch (r->k) {
	case X_SET: case X_DOT: return false; case X_EMPTY: case X_FLAG: return true;
	case X_GRP: case X_SCOPE: return nullable(r->c[0]); case X_REP: return r->lo == 0 || nullable(r->c[0]);
	case X_CAT: for (auto &c : r->c) if (!nullable(c)) return false; return true;
	case X_ALT: for (auto &c : r->c) if (nullable(c)) return true; return false;
	}
	return true;
}
// The one construct the library declares unsupported: an alternation with an alternative which can be empty, within "+".
static bool declared(const R &r, bool plus = false) {
	if (r->k == X_ALT && plus) for (auto &c : r->c) if (nullable(c)) return true;
	bool p = plus; if (r->k == X_REP) p = plus || r->hi < 0;
	for (auto &c : r->c) if (declared(c, p)) return true;
	return false;
}
static bool sql(int N, bool T) {
	Speller sp; bool ok = true;
	RxEnum E; auto any = rx_set(all(), "_"); auto many = rx_grp(rx_empty()); (void) many;
	E.atoms = { rx_set(B('a'), "a"), rx_set(B('b'), "b"), any, neg(B('a'), "[^a]"), rx_set(S("a-"), "[-a]"), rx_empty() };
	E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, 2}, {1, 3} };
	for (int n = 1; n <= N && ok; n++) E.each(n, [&](const R &r) { std::string t = rx_text(r, sp); if (t.find("?") != std::string::npos && t.find("(?") != std::string::npos) return true; for (int f : {0, (int) RE_ICASE}) ok = ok && (f && n > 4 ? true : chk(RE_SQL, t, f, r, ANCH, declared(r))); return ok; });
	// % next to everything
	auto pc = std::make_shared<Rx>(); pc->k = X_REP; pc->c = {any}; pc->lo = 0; pc->hi = -1;
	all_strings({'%', '_', 'a', '|', 'b'}, T ? 7 : 5, [&](const std::string &s) {
		std::vector<R> alts, cat; for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || s[i] == '|') { alts.push_back(cat.empty() ? rx_empty() : rx_n(X_CAT, cat)); cat.clear(); } else cat.push_back(s[i] == '%' ? R(pc) : s[i] == '_' ? one(all()) : one(B(s[i]))); }
		ok = ok && chk(RE_SQL, s, 0, rx_n(X_ALT, alts), ANCH); return ok; });
	for (const char *q : {"%*", "%?", "%+", "%{2}", "(%)*"}) ok = ok && chk(RE_SQL, q, 0, rx_rep(one(all()), 0, -1), ANCH);
	for (int c = 0; c < 256 && ok; c++) { if (!c || !strchr("_%()?*+|[]{}", c)) for (int f : {0, (int) RE_ICASE}) ok = ok && chk(RE_SQL, C(c), f, one(B(c)), ANCH) && chk(RE_SQL, "x" + C(c) + "_", f, rx_n(X_CAT, {one(B('x')), one(B(c)), one(all())}), ANCH);
		if (!c || !strchr("^-][", c)) for (int f : {0, (int) RE_ICASE}) ok = ok && chk(RE_SQL, "[" + C(c) + "]", f, one(B(c)), ANCH) && chk(RE_SQL, "[^" + C(c) + "]", f, neg(B(c), ""), ANCH) && chk(RE_SQL, "[^-" + C(c) + "]", f, neg(B(c) | B('-'), ""), ANCH); }
	struct I { const char *t; Bytes s; }; std::vector<I> it = { {"a", B('a')}, {"Z", B('Z')}, {"c-g", rng('c', 'g')}, {"0-9", rng('0', '9')}, {"!-~", rng('!', '~')}, {"\x80-\xff", rng(128, 255)}, {"[:ALNUM:]", rng('0', '9') | rng('a', 'z') | rng('A', 'Z')}, {"[:ALPHA:]", rng('a', 'z') | rng('A', 'Z')}, {"[:DIGIT:]", rng('0', '9')}, {"[:LOWER:]", rng('a', 'z')}, {"[:SPACE:]", B(' ')}, {"[:UPPER:]", rng('A', 'Z')}, {"[:WHITESPACE:]", S(" \t\n\v\f\r")}, {"_", B('_')}, {"%", B('%')}, {"(", B('(')}, {"*", B('*')}, {" ", B(' ')} };
	for (size_t i = 0; i < it.size() && ok; i++) for (size_t j = 0; j <= it.size() && ok; j++) {
		std::string t = it[i].t; Bytes s = it[i].s; if (j < it.size()) { t += it[j].t; s |= it[j].s; }
		for (int f : {0, (int) RE_ICASE}) ok = ok && chk(RE_SQL, "[" + t + "]", f, one(s), ANCH) && chk(RE_SQL, "[^" + t + "]", f, neg(s, ""), ANCH) && chk(RE_SQL, "[-" + t + "]", f, one(s | B('-')), ANCH) && chk(RE_SQL, "[^-" + t + "]", f, neg(s | B('-'), ""), ANCH);
		// inclusion and exclusion
		for (size_t k = 0; k < it.size() && ok; k++) { if (!T && (i + j + k) % 4) continue; ok = chk(RE_SQL, "[" + t + "^" + it[k].t + "]", 0, one(s & ~it[k].s), ANCH); ok = ok && chk(RE_SQL, "a|[" + t + "^" + it[k].t + "]b", 0, rx_n(X_ALT, {one(B('a')), rx_n(X_CAT, {one(s & ~it[k].s), one(B('b'))})}), ANCH); }
	}
	return ok;
}
static bool native(int N) {
	Speller sp; bool ok = true; RxEnum E; R e = rx_grp(rx_empty());
	E.atoms = { rx_set(B('a'), "a"), rx_set(B('b'), "b"), rx_dot(), neg(B('a'), "[^a]"), e }; E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, 2}, {1, 3} };
	for (int n = 1; n <= N && ok; n++) E.each(n, [&](const R &r) { std::string t = rx_text(r, sp);
		for (int f : {0, (int) RE_ANCHORED, (int) RE_ICASE | (int) RE_ANCHORED, (int) RE_SINGLE, (int) RE_REVERSE}) { if (f && n > 4) continue; RxOpt o; o.anchored_start = o.anchored_end = f & RE_ANCHORED; o.end_nl = false; ok = ok && chk(RE_NATIVE, t, f, r, o, declared(r)); } return ok; });
	RxEnum G; G.atoms = { rx_set(B('a'), "a"), rx_anch(A_START, "^"), rx_anch(A_END, "$"), rx_set(B('\n'), "\n"), e }; G.reps = { {0, 1}, {0, -1} };
	for (int n = 1; n <= (N < 4 ? N : 4) && ok; n++) G.each(n, [&](const R &r) { std::string t = rx_text(r, sp);
		for (int f : {0, (int) RE_ANCHORED}) { RxOpt o; o.anchored_start = o.anchored_end = f; o.end_nl = false; ok = ok && chk(RE_NATIVE, t, f, r, o, true); } return ok; });
	return ok;
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	wild(RE_GLOB, '?', '*', lite ? 4 : T ? 8 : 6, T) && wild(RE_LIKE, '_', '%', lite ? 4 : T ? 8 : 6, T) && literal(T) && sql(lite ? 3 : T ? 6 : 5, T) && native(lite ? 3 : T ? 7 : 6);
	return H.finish();
}
