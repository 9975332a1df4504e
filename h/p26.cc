// P26: literal and anchoredness detection agree with the language.
#include "rx.h"
extern "C" {
#include <re/literal.h>
}
// s under the given anchoring; nl: followed by an optional newline at the end
static Nfa lit_nfa(const std::string &s, bool as, bool ae, bool nl) {
	Nfa a; Bytes all; all.set(); int q = a.add(); a.start = q;
	if (!as) a.set(q, q, all);
	for (unsigned char c : s) { int t = a.add(); a.lit(q, t, c); q = t; }
	a.s[q].end = true;
	if (!ae) { int t = a.add(true); a.set(q, t, all); a.set(t, t, all); }
	else if (nl) { int t = a.add(true); a.lit(q, t, '\n'); }
	return a;
}
static bool single(const R &r, unsigned char &c) { if (r->k != X_SET || r->set.count() != 1) return false; for (int i = 0; i < 256; i++) if (r->set[i]) c = i; return true; }
struct Plain { bool is = false, as = false, ae = false, nl = false; std::string s; };
static Plain plain(const R &r) { // [^] literal* [$], written plainly
	Plain p; std::vector<R> v = r->k == X_CAT ? r->c : std::vector<R>{r}; size_t i = 0, n = v.size();
	if (n == 1 && v[0]->k == X_EMPTY) { p.is = true; return p; }
	if (i < n && v[i]->k == X_ANCH && v[i]->type == A_START) { p.as = true; i++; }
	if (n > i && v[n - 1]->k == X_ANCH && v[n - 1]->type != A_START) { p.ae = true; p.nl = v[n - 1]->type == A_ENDNL; n--; }
	for (; i < n; i++) { unsigned char c; if (!single(v[i], c)) return p; p.s += (char) c; }
	p.is = true; return p;
}
static bool has(const R &r, std::function<bool(const Rx &)> f) { if (f(*r)) return true; for (auto &c : r->c) if (has(c, f)) return true; return false; }
static void one(enum re_dialect d, const R &r, const std::string &t, int flags) {
	if (!H.begin([&] { return std::string(d == RE_PCRE ? "pcre" : "native") + fmt(" flags %d ", flags) + show(t); })) return;
	Comp c = rx_comp(d, t, flags);
	MemIn m{t.data(), t.size()}; struct re_err e; memset(&e, 0, sizeof e); enum re_literal_category cat = (enum re_literal_category) 99; char *s = (char *) &m; size_t n = 12345;
	int lit = re_is_literal(d, mem_getc, &m, (enum re_flags) flags, &e, &cat, &s, &n);
	m = {t.data(), t.size()}; struct re_err e2; memset(&e2, 0, sizeof e2);
	enum re_is_anchored_res an = re_is_anchored(d, mem_getc, &m, (enum re_flags) flags, &e2);
	if (!c.f) {
		if (lit != -1) H.fail("literal-error", fmt("re_is_literal gives %d for a refused pattern", lit));
		if (an != RE_IS_ANCHORED_ERROR) H.fail("anchored-error", fmt("re_is_anchored gives %d for a refused pattern", an));
		if (lit == -1 && (e.e != c.e.e || e2.e != c.e.e)) H.fail("error-code", fmt("%d, %d; re_comp gives %d", e.e, e2.e, c.e.e));
		return;
	}
	H.nontrivial++;
	fsm_free(c.f);
	if (lit != 0 && lit != 1) { H.fail("literal-result", fmt("%d", lit)); return; }
	if (an & ~3) { H.fail("anchored-result", fmt("%d", an)); return; }
	RxOpt o; o.end_nl = d == RE_PCRE && !(flags & RE_ANCHORED); o.anchored_start = o.anchored_end = false;
	int fl = (flags & RE_ICASE ? F_I : 0) | (flags & RE_SINGLE ? F_S : 0); R rr = rx_resolve(r, fl);
	Nfa L = rx_nfa(rr, o);
	if (lit == 1) {
		H.counters[cat == RE_LITERAL_UNSATISFIABLE ? "unsatisfiable" : "literals"]++;
		if (cat == RE_LITERAL_UNSATISFIABLE) {
			if (!ref_empty(L)) H.fail("unsatisfiable", "called unsatisfiable, but there are matches");
			if (s || n) H.fail("unsatisfiable-result", fmt("s %p n %zu", (void *) s, n));
		} else if (cat & ~3) H.fail("category", fmt("%d", cat));
		else if ((n == 0) != (s == nullptr) || n > t.size() + 1) H.fail("string", fmt("s %p n %zu", (void *) s, n));
		else {
			std::string x(s ? s : "", n); bool as = cat & 1, ae = cat & 2;
			Diff w = compare(L, lit_nfa(x, as, ae, false), CMP_END, 20000); bool ok = !w.differ;
			if (!ok && ae && n && x[n - 1] == '\n') { x.pop_back(); ok = !compare(L, lit_nfa(x, as, ae, true), CMP_END, 20000).differ; } // the optional newline is written at the end
			if (!ok) H.fail("literal", fmt("called the literal %s, category %d: %s", show(std::string(s ? s : "", n)).c_str(), cat, w.why.c_str()));
		}
		if (s) free(s);
	}
	if (!flags) {
		Plain p = plain(r);
		if (p.is && p.s.find('\n') == std::string::npos) { // newlines are not considered
			std::string x = p.s; if (p.nl && d == RE_PCRE) x += '\n';
			if (lit != 1) H.fail("missed-literal", "a plain literal");
			else if ((int) cat != (p.as ? 1 : 0) + (p.ae ? 2 : 0) || n != x.size()) H.fail("plain", fmt("category %d, length %zu", cat, n));
		}
	}
	for (int k = 0; k < 2; k++) if (an & (k ? 2 : 1)) {
		H.counters[k ? "end-anchored" : "start-anchored"]++;
		RxOpt q = o; R ra = rr; if (k) ra = rx_n(X_CAT, {rr, rx_anch(d == RE_PCRE ? A_ENDNL : A_END, "$")}); else q.anchored_start = true;
		Diff w = compare(rx_nfa(ra, q), L, CMP_END, 20000);
		if (w.differ) H.fail(k ? "end-anchored" : "start-anchored", "called anchored, but there are matches elsewhere: " + w.why);
		if (!ref_empty(L) && !has(r, [&](const Rx &x) { return x.k == X_ANCH && (x.type != A_START) == (k == 1); })) H.fail("no-anchor", k ? "end" : "start");
	}
	{ std::vector<R> v = r->k == X_CAT ? r->c : std::vector<R>{r};
	if (v[0]->k == X_ANCH && v[0]->type == A_START && !(an & 1)) H.fail("missed-start", "^ comes first");
	if (v.back()->k == X_ANCH && v.back()->type != A_START && !(an & 2)) H.fail("missed-end", "the end anchor comes last"); }
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	auto set1 = [](unsigned char c, const std::string &t) { Bytes b; b.set(c); return rx_set(b, t); };
	RxEnum E;
	E.atoms = { rx_anch(A_START, "^"), rx_anch(A_ENDNL, "$"), set1('a', "a"), rx_empty(), rx_anch(A_END, "\\z"), rx_dot(), set1('\n', "\n") };
	E.reps = { {0, 0}, {0, 1}, {1, 1}, {1, -1}, {2, 2} };
	const int fl[] = { 0, RE_SINGLE, RE_ICASE };
	bool ok = true;
	for (int n = 1; ok && n <= (lite ? 3 : T ? 6 : 5); n++) ok = E.each(n, [&](const R &r) {
		for (int f = 0; f < (n <= 4 ? 3 : 1); f++) { if (H.stop()) return false; if (!H.take()) continue; Speller sp; if (H.idx % 3) sp.open = "(?:"; one(RE_PCRE, r, rx_text(r, sp), fl[f]); }
		return true; });
	// concatenations only, longer; with case folding switched in line
	RxEnum C; C.atoms = E.atoms; C.atoms.push_back(rx_flag(F_I, 0)); C.atoms.push_back(rx_flag(0, F_I));
	std::vector<unsigned char> ix; for (size_t i = 0; i < C.atoms.size(); i++) ix.push_back(i);
	if (ok) all_strings(ix, lite ? 3 : T ? 6 : 5, [&](const std::string &s) {
		if (H.stop()) return ok = false; if (s.size() < 2) return true;
		if (!H.take()) return true;
		std::vector<R> v; for (unsigned char c : s) v.push_back(C.atoms[c]); R r = rx_n(X_CAT, v); Speller sp; one(RE_PCRE, r, rx_text(r, sp), 0); return true; });
	// native
	RxEnum N; N.atoms = { rx_anch(A_START, "^"), rx_anch(A_END, "$"), set1('a', "a"), rx_empty(), set1('\n', "\\n") }; N.reps = { {0, 1}, {1, 1}, {2, 2} };
	for (int n = 1; ok && n <= (lite ? 3 : T ? 6 : 5); n++) ok = N.each(n, [&](const R &r) { if (H.stop()) return false; if (!H.take()) return true; Speller sp; one(RE_NATIVE, r, rx_text(r, sp), 0); return true; });
	// every byte and many lengths, each way anchored
	for (int k = 0; ok && k < 4; k++) for (int c = 0; c < 256 + (lite ? 20 : 700); c++) {
		if (H.stop()) { ok = false; break; } if (!H.take()) continue;
		std::vector<R> v; if (k & 1) v.push_back(rx_anch(A_START, "^"));
		if (c < 256) { v.push_back(set1('x', "x")); v.push_back(set1(c, fmt("\\x%02x", c))); v.push_back(set1(c, fmt("\\x%02x", c))); } else for (int i = 0; i < c - 256; i++) v.push_back(set1('a' + i % 26, std::string(1, 'a' + i % 26)));
		if (k & 2) v.push_back(c % 3 ? rx_anch(A_ENDNL, "$") : rx_anch(A_END, "\\z"));
		if (v.empty()) v.push_back(rx_empty());
		R r = v.size() == 1 ? v[0] : rx_n(X_CAT, v); Speller sp; one(RE_PCRE, r, rx_text(r, sp), 0);
	}
	// a dialect which does not exist
	if (H.take() && H.begin([&] { return std::string("no such dialect"); })) {
		MemIn m{"a", 1}; struct re_err e; memset(&e, 0, sizeof e); enum re_literal_category cat; char *s = nullptr; size_t n = 0;
		if (re_is_literal((enum re_dialect) 0x77, mem_getc, &m, (enum re_flags) 0, &e, &cat, &s, &n) != -1 || e.e != RE_EBADDIALECT) H.fail("dialect", "re_is_literal");
		e.e = RE_ESUCCESS; if (re_is_anchored((enum re_dialect) 0x77, mem_getc, &m, (enum re_flags) 0, &e) != RE_IS_ANCHORED_ERROR || e.e != RE_EBADDIALECT) H.fail("dialect", "re_is_anchored");
		e.e = RE_ESUCCESS; if (re_comp((enum re_dialect) 0x77, mem_getc, &m, nullptr, (enum re_flags) 0, &e) || e.e != RE_EBADDIALECT) H.fail("dialect", "re_comp");
	}
	return H.finish();
}
