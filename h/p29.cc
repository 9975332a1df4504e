// P29: printing a regex AST and reading it again gives an equal language.
#include "astread.h"
static bool has_anchor(const R &r) { if (r->k == X_ANCH) return true; for (auto &c : r->c) if (has_anchor(c)) return true; return false; }
static Diff same(const R &a, const R &b, const RxOpt &o) { return compare(rx_nfa(a, o), rx_nfa(b, o), CMP_END, 60000); }
// m is what the pattern means, or null where only the machines it compiles to are compared
static void one(enum re_dialect dia, const std::string &t, R m, int flags, bool hex) {
	if (!H.begin([&] { return fmt("dialect %d flags %d%s ", dia, flags, hex ? " hex" : "") + show(t); })) return;
	struct re_err e; memset(&e, 0, sizeof e); MemIn in{t.data(), t.size()};
	struct ast *a = re_parse(dia, mem_getc, &in, (enum re_flags) flags, &e, nullptr);
	Comp c = rx_comp(dia, t, flags);
	if (!a) { if (c.f) { H.fail("parse", "re_parse refused what re_comp accepts"); fsm_free(c.f); } return; }
	H.nontrivial++;
	struct fsm_options o; memset(&o, 0, sizeof o); o.always_hex = hex;
	std::string p = print(a, o, flags, AST_PRINT_PCRE), ab = print(a, o, flags, AST_PRINT_ABNF), dot = print(a, o, flags, AST_PRINT_DOT), tree = print(a, o, flags, AST_PRINT_TREE);
	ast_free(a);
	RxOpt ro; ro.anchored_start = ro.anchored_end = flags & RE_ANCHORED; ro.end_nl = !(flags & RE_ANCHORED);
	// PCRE: what the text means, and what it compiles to
	if (p.empty() || p.back() != '\n') { H.fail("pcre", "no newline after " + show(p)); p += '\n'; }
	p.pop_back();
	int fl2 = flags; if (dia == RE_LIKE || dia == RE_LITERAL || dia == RE_GLOB || dia == RE_SQL) fl2 |= RE_ANCHORED;
	int rf = (fl2 & RE_ICASE ? F_I : 0) | (fl2 & RE_SINGLE ? F_S : 0);
	PcreReader pr(p, flags & RE_EXTENDED); R pm = pr.read(rf);
	if (!pr.ok) H.fail("pcre syntax", show(p) + ": " + pr.why);
	else if (m) { Diff d = same(m, pm, ro); if (d.differ) H.fail("pcre", "printed " + show(p) + ", which differs: " + d.why); }
	Comp c2 = rx_comp(RE_PCRE, p, fl2);
	if (c.f && !c2.f) H.fail("pcre refused", "printed " + show(p) + ": " + re_strerror(c2.e.e));
	if (c.f && c2.f && !(m && has_anchor(m))) { Diff d = compare(extract(c.f), extract(c2.f), CMP_END, 60000); if (d.differ) H.fail("pcre compiled", "printed " + show(p) + ", which differs: " + d.why); }
	if (c2.f) { // and again
		MemIn in2{p.data(), p.size()}; struct ast *a2 = re_parse(RE_PCRE, mem_getc, &in2, (enum re_flags) fl2, &e, nullptr);
		if (!a2) H.fail("parse", "re_parse refused what re_comp accepts: " + show(p));
		else { std::string p2 = print(a2, o, fl2, AST_PRINT_PCRE); ast_free(a2); p2.pop_back(); PcreReader q(p2, fl2 & RE_EXTENDED); R qm = q.read(rf); if (!q.ok) H.fail("pcre syntax", show(p2) + ": " + q.why); else if (pr.ok && !has_anchor(pm)) { Diff d = same(pm, qm, ro); if (d.differ) H.fail("pcre again", show(p) + " then " + show(p2) + ": " + d.why); } }
		fsm_free(c2.f);
	}
	// ABNF
	AbnfReader ar(ab); R am = ar.read();
	if (!ar.ok) H.fail("abnf syntax", show(ab) + ": " + ar.why);
	else if (m && !has_anchor(m)) { RxOpt x; x.anchored_start = x.anchored_end = true; x.end_nl = false; Diff d = same(m, am, x); if (d.differ) H.fail("abnf", "printed " + show(ab) + ", which differs: " + d.why); }
	else if (pr.ok && !has_anchor(pm)) { RxOpt x; x.anchored_start = x.anchored_end = true; x.end_nl = false; Diff d = same(pm, am, x); if (d.differ) H.fail("abnf", "printed " + show(ab) + " and " + show(p) + ": " + d.why); }
	// dot: a tree with one node for each line of the tree output
	size_t nodes = 0, edges = 0, lines = 0; std::set<std::string> ids, kids; bool good = dot.compare(0, 12, "digraph G {\n") == 0 && dot.size() > 2 && dot.compare(dot.size() - 2, 2, "}\n") == 0;
	for (size_t i = 0; i < dot.size();) { size_t j = dot.find('\n', i); std::string l = dot.substr(i, j - i); i = j + 1;
		size_t k;
		if (l.compare(0, 2, "\tn") == 0 && (k = l.find(" [ label = <{")) != std::string::npos) { nodes++; if (!ids.insert(l.substr(1, k - 1)).second) good = false;
			if (l.size() < k + 18 || l.compare(l.size() - 5, 5, "}> ];")) { good = false; continue; }
			std::string lab = l.substr(k + 12, l.size() - 4 - (k + 12)); // {..}|{..}
			int depth = 0; for (size_t x = 0; x < lab.size(); x++) { char ch = lab[x]; if (ch == '\\' && x + 1 < lab.size()) x++; else if (ch == '{') depth++; else if (ch == '}') { if (--depth < 0) good = false; } else if (ch == '<' || ch == '>') good = false; else if (ch == '&') { size_t z = lab.find(';', x); if (z == std::string::npos || z - x > 8) good = false; } }
			if (depth) good = false;
		} else if (l.compare(0, 2, "\tn") == 0 && (k = l.find(" -> n")) != std::string::npos && l.back() == ';') { edges++; std::string to = l.substr(k + 4, l.size() - k - 5); if (!ids.count(l.substr(1, k - 1)) || !kids.insert(to).second) good = false; } }
	for (auto &x : kids) if (!ids.count(x)) good = false;
	for (size_t i = 0; (i = tree.find(" -- ", i)) != std::string::npos; i += 4) { static const char *const ty[] = { "EMPTY", "CONCAT", "ALT", "LITERAL", "CODEPOINT", "REPEAT", "GROUP", "ANCHOR", "SUBTRACT", "RANGE", "RIP" }; for (auto x : ty) if (tree.compare(i + 4, strlen(x), x) == 0) { lines++; break; } }
	if (!good || edges + 1 != nodes) H.fail("dot", show(dot));
	if (nodes != lines) H.fail("tree", fmt("%zu nodes in dot, %zu in the tree", nodes, lines));
	if (c.f) fsm_free(c.f);
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite, ok = true;
	auto go = [&](enum re_dialect d, const std::string &t, R m, int flags, bool hex) { if (!ok) return; if (H.stop()) { ok = false; return; } if (H.take()) one(d, t, m, flags, hex); };
	auto S = [](const char *c) { Bytes b; for (; *c; c++) b.set((unsigned char) *c); return b; };
	Bytes all; all.set();
	auto run = [&](RxEnum &E, int N, std::vector<int> fls) {
		for (int n = 1; ok && n <= N; n++) E.each(n, [&](const R &r) {
			for (int fl : fls) { if (!ok) return false; if (H.stop()) return ok = false; if (!H.take()) continue;
				Speller sp; sp.open = H.idx % 3 ? "(?:" : "("; sp.style = H.idx % 3 == 1;
				int f = (fl & RE_ICASE ? F_I : 0) | (fl & RE_SINGLE ? F_S : 0);
				one(RE_PCRE, rx_text(r, sp), rx_resolve(r, f), fl, H.idx % 7 == 3); }
			return ok; }); };
	auto neg = std::make_shared<Rx>(); neg->k = X_SET; neg->set = ~S("a"); neg->txt = "[^a]"; neg->type = 1;
	{ RxEnum E; E.atoms = { rx_set(S("a"), "a"), neg, rx_dot(), rx_empty() }; E.reps = { {0, -1}, {1, -1}, {0, 1}, {2, 2}, {1, 2} }; run(E, T ? 7 : lite ? 3 : 6, { 0 }); }
	{ RxEnum E; E.atoms = { rx_set(S("a"), "a"), rx_set(S("ab"), "[ab]") }; E.reps = { {0, -1}, {1, -1}, {0, 1}, {0, 0}, {1, 1}, {2, 2}, {3, -1}, {2, 3}, {0, 2} }; run(E, T ? 6 : lite ? 3 : 5, { 0, RE_ICASE, RE_ANCHORED, RE_REVERSE }); }
	{ RxEnum E; E.atoms = { rx_set(S("a"), "a"), rx_dot(), rx_flag(F_I, 0), rx_flag(0, F_I), rx_flag(F_S, 0), rx_flag(F_I, F_S) }; E.reps = { {0, -1}, {2, 2} }; run(E, T ? 7 : lite ? 3 : 6, { 0, RE_ICASE | RE_SINGLE }); }
	{ RxEnum E; E.atoms = { rx_set(S("a"), "a"), rx_anch(A_START, "^"), rx_anch(A_ENDNL, "$"), rx_anch(A_END, "\\z") }; E.reps = { {0, 1} }; run(E, T ? 7 : lite ? 3 : 6, { 0, RE_SINGLE }); }
	// every byte, alone, doubled and in classes, under every flag
	std::vector<int> fls = { 0, RE_ICASE, RE_SINGLE, RE_EXTENDED, RE_ICASE | RE_EXTENDED, RE_ANCHORED };
	auto quote = [](int c) { return fmt("\\x%02x", c); };
	auto setrx = [&](Bytes b, int fl, bool n) { if (fl & RE_ICASE) b = fold(b); if (n) b = ~b; return rx_set(b, "s"); };
	for (int c = 0; c < 256; c++) for (int fl : fls) for (int hex = 0; hex < 2; hex++) {
		Bytes b; b.set(c); R s = setrx(b, fl, false), ns = setrx(b, fl, true);
		go(RE_PCRE, quote(c), s, fl, hex); go(RE_PCRE, "x" + quote(c) + "*", rx_n(X_CAT, { setrx(S("x"), fl, false), rx_rep(s, 0, -1) }), fl, hex);
		go(RE_PCRE, "[^" + quote(c) + "]", ns, fl, hex); go(RE_PCRE, "(?:[^" + quote(c) + "]|q){2}x", rx_n(X_CAT, { rx_rep(rx_n(X_ALT, { ns, setrx(S("q"), fl, false) }), 2, 2), setrx(S("x"), fl, false) }), fl, hex);
		std::string raw(1, (char) c); go(RE_LITERAL, raw + raw, nullptr, fl & ~RE_EXTENDED, hex); go(RE_GLOB, raw + "*", nullptr, fl & ~RE_EXTENDED, hex); go(RE_LIKE, "_" + raw + "%", nullptr, fl & ~RE_EXTENDED, hex);
	}
	// ranges
	std::vector<int> ends = { 0, 1, '\n', ' ', '"', '#', '$', '(', '*', '+', ',', '-', '.', '/', '0', '9', '@', 'A', 'M', 'Z', '[', '\\', ']', '^', '`', 'a', 'm', 'z', '{', '|', '}', '~', 127, 128, 254, 255 };
	for (size_t i = 0; i < ends.size(); i++) for (size_t j = i; j < ends.size(); j++) for (int fl : fls) {
		Bytes b; for (int c = ends[i]; c <= ends[j]; c++) b.set(c);
		std::string r = quote(ends[i]) + "-" + quote(ends[j]);
		bool hex = (i + j) % 3 == 0;
		go(RE_PCRE, "[" + r + "]", setrx(b, fl, false), fl, hex); go(RE_PCRE, "[^" + r + "]", setrx(b, fl, true), fl, hex);
		Bytes d = b; d.set('k'); d.set(']'); d.set('-'); go(RE_PCRE, "[" + r + "k\\]\\-]+", rx_rep(setrx(d, fl, false), 1, -1), fl, hex); go(RE_PCRE, "[^" + r + "k\\]\\-]?", rx_rep(setrx(d, fl, true), 0, 1), fl, hex);
	}
	// named classes and SQL's exclusions
	for (auto n : { "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit" }) for (int fl : fls) for (int hex = 0; hex < 2; hex++)
		for (auto f : { "[[:%s:]]", "[^[:%s:]]", "[[:%s:]x-z]*", "[^[:%s:]_]{2}" }) go(RE_PCRE, fmt(f, n), nullptr, fl, hex);
	for (auto n : { "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\h", "\\H", "\\v", "\\V", "\\R", "\\N", "[\\d\\W]", "[^\\D]", "[^\\s\\w]", "[\\h\\v]", "[^\\x00-\\xff]", "[^\\x00-\\xff]|a", "(?:[^\\x00-\\xff])?b" }) for (int fl : fls) for (int hex = 0; hex < 2; hex++) go(RE_PCRE, n, nullptr, fl, hex);
	std::vector<std::string> items = { "a", "a-c", "A-z", "[:DIGIT:]", "[:ALPHA:]", " -~", "xyz", "b-b", "0-9" };
	for (auto &x : items) for (auto &y : items) for (auto f : { "[%s^%s]", "([%s^%s]|q)*", "[%s^%s]{2}" }) for (int fl : { 0, (int) RE_ICASE, (int) RE_SINGLE }) { go(RE_SQL, fmt(f, x.c_str(), y.c_str()), nullptr, fl, false); }
	for (auto &x : items) for (auto f : { "[%s]", "[^%s]", "[^%s]*_", "%%[^%s]{2,}" }) go(RE_SQL, fmt(f, x.c_str()), nullptr, 0, false);
	{ std::string al = "a.*?+|()^$"; std::vector<unsigned char> v(al.begin(), al.end()); all_strings(v, T ? 7 : lite ? 3 : 6, [&](const std::string &s) { go(RE_NATIVE, s, nullptr, 0, false); return ok; }); }
	return H.finish();
}
