// Printing syntax trees, and readers of the PCRE and ABNF printed.
#pragma once
#include "rx.h"
extern "C" {
#include <fsm/options.h>
#include "libre/print.h"
struct ast *re_parse(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque, enum re_flags flags, struct re_err *err, int *unsatisfiable);
void ast_free(struct ast *ast);
}
static inline std::string print(struct ast *a, const struct fsm_options &o, int flags, enum ast_print_lang l) {
	char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); int r = ast_print(f, a, &o, (enum re_flags) flags, l); fclose(f);
	std::string s(b, n); free(b); if (r) H.fail("print", fmt("returned %d", r)); return s;
}
// an alternation, with its single characters taken together
static inline R alt_of(const std::vector<R> &v) {
	if (v.size() == 1) return v[0];
	std::vector<R> o; Bytes b; bool any = false; for (auto &x : v) if (x->k == X_SET) { b |= x->set; any = true; } else o.push_back(x);
	if (any) o.push_back(rx_set(b, "s")); return o.size() == 1 ? o[0] : rx_n(X_ALT, o);
}
// ---- a reader of the PCRE which is printed ----
struct PcreReader {
	const std::string &t; size_t i = 0; bool ok = true; std::string why; bool x;
	PcreReader(const std::string &t, bool x) : t(t), x(x) {}
	R bad(const std::string &w) { if (ok) { ok = false; why = w + fmt(" at %zu", i); } return rx_empty(); }
	bool at(const char *s) { return t.compare(i, strlen(s), s) == 0; }
	bool eat(const char *s) { if (!at(s)) return false; i += strlen(s); return true; }
	int esc() { // after a backslash
		if (i >= t.size()) { bad("backslash"); return 0; }
		char c = t[i++];
		if (c == 'x') { int h = 0; if (eat("{")) { while (i < t.size() && isxdigit((unsigned char) t[i])) h = h * 16 + (int) strtol(std::string(1, t[i++]).c_str(), nullptr, 16); if (!eat("}") || h > 255) bad("hex"); return h; }
			for (int k = 0; k < 2; k++) { if (i >= t.size() || !isxdigit((unsigned char) t[i])) { bad("hex"); return 0; } h = h * 16 + (int) strtol(std::string(1, t[i++]).c_str(), nullptr, 16); } return h; }
		switch (c) { case 'f': return '\f'; case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'v': case 'a': case 'e': case 'b': bad("letter escape"); return 0; }
		if (isalnum((unsigned char) c)) { bad("escape"); return 0; }
		return (unsigned char) c;
	}
	void flags(int &fl) { // after "(?"
		bool neg = false; while (i < t.size() && t[i] != ')') { char c = t[i++]; int b = c == 'i' ? F_I : c == 's' ? F_S : 0; if (c == '-' && !neg) { neg = true; continue; } if (!b) { bad("flag"); return; } if (neg) fl &= ~b; else fl |= b; }
		if (!eat(")")) bad("flags");
	}
	R alts(int &fl) { std::vector<R> v; for (;;) { v.push_back(cat(fl)); if (!ok || !eat("|")) break; } return alt_of(v); }
	R cat(int &fl) {
		std::vector<R> v;
		while (ok && i < t.size() && t[i] != '|' && t[i] != ')') {
			if (x && (isspace((unsigned char) t[i]))) { i++; continue; }
			if (x && t[i] == '#') { while (i < t.size() && t[i] != '\n') i++; continue; }
			R a; bool quant = true;
			if (eat("^")) { a = rx_anch(A_START, "^"); quant = false; }
			else if (eat("$")) { a = rx_anch(A_ENDNL, "$"); quant = false; }
			else if (eat("\\z")) { a = rx_anch(A_END, "\\z"); quant = false; }
			else if (eat("(?:")) { int g = fl; a = rx_grp(alts(g)); if (!eat(")")) bad(") expected"); }
			else if (eat("(?")) { flags(fl); a = rx_empty(); quant = false; }
			else if (eat("(")) { int g = fl; a = rx_grp(alts(g)); if (!eat(")")) bad(") expected"); }
			else if (eat(".")) { Bytes b; b.set(); if (!(fl & F_S)) b.reset('\n'); a = rx_set(b, "."); }
			else if (at("[")) { i++; bool neg = eat("^"); Bytes b; bool first = true;
				auto item = [&]() { if (i >= t.size()) { bad("class"); return 0; } if (t[i] == '\\') { i++; return esc(); } if (t[i] == '[') bad("[ in class"); return (int) (unsigned char) t[i++]; };
				while (ok && i < t.size() && (t[i] != ']' || first)) { first = false; int lo = item(), hi = lo; if (ok && i + 1 < t.size() && t[i] == '-' && t[i + 1] != ']') { i++; hi = item(); } if (hi < lo) bad("range"); for (int c = lo; c <= hi; c++) b.set(c); }
				if (!eat("]")) bad("] expected"); if (fl & F_I) b = fold(b); if (neg) b = ~b; a = rx_set(b, "c"); }
			else if (strchr("*+?{}])", t[i]) && t[i] && t[i] != '}' && t[i] != ']') return bad("nothing to repeat");
			else { int c; if (t[i] == '\\') { i++; c = esc(); } else c = (unsigned char) t[i++]; Bytes b; b.set(c); if (fl & F_I) b = fold(b); a = rx_set(b, "l"); }
			if (!ok) break;
			int lo = -1, hi = 0;
			if (eat("*")) lo = 0, hi = -1; else if (eat("+")) lo = 1, hi = -1; else if (eat("?")) lo = 0, hi = 1;
			else if (i + 1 < t.size() && t[i] == '{' && isdigit((unsigned char) t[i + 1])) { i++; lo = 0; while (isdigit((unsigned char) t[i])) lo = lo * 10 + t[i++] - '0'; hi = lo; if (eat(",")) { hi = -1; if (isdigit((unsigned char) t[i])) { hi = 0; while (isdigit((unsigned char) t[i])) hi = hi * 10 + t[i++] - '0'; } } if (!eat("}")) bad("count"); }
			if (lo >= 0) { if (!quant) return bad("nothing to repeat"); if (hi >= 0 && hi < lo) bad("count"); a = rx_rep(a, lo, hi); if (i < t.size() && strchr("*+?", t[i])) return bad("lazy, possessive or nested repeat"); if (i + 1 < t.size() && t[i] == '{' && isdigit((unsigned char) t[i + 1])) return bad("nested repeat"); }
			v.push_back(a);
		}
		return v.empty() ? rx_empty() : v.size() == 1 ? v[0] : rx_n(X_CAT, v);
	}
	R read(int fl) { R r = alts(fl); if (ok && i != t.size()) bad("trailing text"); return r; }
};
// ---- a reader of ABNF (RFC 5234 and 7405), with "-" between terms ----
struct AbnfReader {
	const std::string &t; size_t i = 0; bool ok = true; std::string why;
	AbnfReader(const std::string &t) : t(t) {}
	R bad(const std::string &w) { if (ok) { ok = false; why = w + fmt(" at %zu", i); } return rx_empty(); }
	bool eat(const char *s) { if (t.compare(i, strlen(s), s)) return false; i += strlen(s); return true; }
	void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) i++; }
	static bool setof(const R &r, Bytes &b) { if (r->k == X_SET) { b |= r->set; return true; } if (r->k == X_GRP) return setof(r->c[0], b); if (r->k == X_ALT) { for (auto &c : r->c) if (!setof(c, b)) return false; return true; } return false; }
	R alts() { std::vector<R> v; for (;;) { ws(); v.push_back(cat()); ws(); if (!ok || !eat("/")) break; } return alt_of(v); }
	R cat() { std::vector<R> v; for (;;) { v.push_back(rep()); if (!ok) return v[0]; size_t j = i; ws();
			if (i < t.size() && t[i] == '-') { i++; ws(); R b = rep(); Bytes x, y; if (ok && (!setof(v.back(), x) || !setof(b, y))) return bad("subtraction of other than sets"); v.back() = rx_set(x & ~y, "-"); j = i; ws(); }
			if (i >= t.size() || strchr("/)]\n", t[i])) break; if (i == j) return bad("space expected"); }
		return v.size() == 1 ? v[0] : rx_n(X_CAT, v); }
	int num() { int n = 0; while (i < t.size() && isdigit((unsigned char) t[i])) n = n * 10 + t[i++] - '0'; return n; }
	int hex() { if (i + 1 >= t.size() || !isxdigit((unsigned char) t[i]) || !isxdigit((unsigned char) t[i + 1])) { bad("hex"); return 0; } int h = (int) strtol(t.substr(i, 2).c_str(), nullptr, 16); i += 2; return h; }
	R str(bool icase) { std::vector<R> v; while (i < t.size() && t[i] != '"') { unsigned char c = t[i++]; if (c < 0x20 || c > 0x7e) return bad("character in string"); Bytes b; b.set(c); v.push_back(rx_set(icase ? fold(b) : b, "c")); } if (!eat("\"")) return bad("quote"); return v.empty() ? rx_empty() : v.size() == 1 ? v[0] : rx_n(X_CAT, v); }
	R rep() {
		int lo = 1, hi = 1; bool d = i < t.size() && isdigit((unsigned char) t[i]);
		if (d) lo = hi = num();
		if (eat("*")) { if (!d) lo = 0; hi = -1; if (i < t.size() && isdigit((unsigned char) t[i])) hi = num(); }
		R e; Bytes b;
		if (eat("(")) { e = rx_grp(alts()); if (!eat(")")) return bad(") expected"); }
		else if (eat("[")) { e = rx_rep(alts(), 0, 1); if (!eat("]")) return bad("] expected"); }
		else if (eat("\"")) e = str(true); else if (eat("%s\"")) e = str(false); else if (eat("%i\"")) e = str(true);
		else if (eat("%x")) { int l = hex(), h = l; if (eat("-")) h = hex(); if (h < l) bad("range"); for (int c = l; c <= h; c++) b.set(c); e = rx_set(b, "x"); if (i < t.size() && isxdigit((unsigned char) t[i])) return bad("hex"); }
		else if (eat("OCTET")) { b.set(); e = rx_set(b, "OCTET"); }
		else if (eat("<^>")) e = rx_anch(A_START, ""); else if (eat("<$>")) e = rx_anch(A_END, ""); else if (eat("<RIP>")) e = rx_set(Bytes(), "RIP");
		else return bad("element expected");
		if (hi >= 0 && hi < lo) return bad("count");
		return lo == 1 && hi == 1 ? e : rx_rep(e, lo, hi);
	}
	R read() { if (!eat("e = ")) return bad("e ="); R r = alts(); if (ok && (!eat("\n\n") || i != t.size())) bad("trailing text"); return r; }
};
