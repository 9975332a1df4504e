// P25: parsing a regular expression is total, with accurate errors.
#include "rx.h"
// ---- what the PCRE grammar says of texts over a small alphabet ----
struct Want { enum K { OK, SYN, UNSUP, NEGRANGE, NEGCOUNT } k = OK; unsigned a0 = 0, a1 = 0, b = 0, m = 0, n = 0; };
struct Pcre {
	enum T { END, BAD, LIT, NOE, UNS, OPEN, CLOSE, ALT, ANCH, QUANT, OPT, PLUS, LB, LBI, LBC, LBIC, RANGE, RB, RRB, LC, RC, NUM, SEP };
	const std::string &s; size_t p = 0; int zone = 0; // zone: 0 outside, 1 class, 2 count
	T t = END; size_t ts = 0, te = 0, prev = 0; unsigned char c = 0; unsigned num = 0; bool first = true;
	Pcre(const std::string &x) : s(x) { next(); }
	static bool in(char x, const char *v) { return x && strchr(v, x); }
	void next() {
		prev = first ? 0 : ts; first = false; lex();
	}
	void lex() {
		ts = p; if (p >= s.size()) { t = END; te = p; return; }
		char x = s[p], y = p + 1 < s.size() ? s[p + 1] : 0;
		auto tok = [&](T k, size_t n) { t = k; p += n; te = p; };
		if (zone == 2) {
			if (x == '}') { zone = 0; tok(RC, 1); } else if (x == ',') tok(SEP, 1);
			else if (isdigit((unsigned char) x)) { size_t q = p; num = 0; while (q < s.size() && isdigit((unsigned char) s[q])) num = num * 10 + (s[q++] - '0'); tok(NUM, q - p); }
			else tok(BAD, 1);
			return;
		}
		if (x == '\\') {
			if (!y) { tok(BAD, 1); return; }
			if (y >= '1' && y <= '9') { size_t q = p + 1; while (q < s.size() && isdigit((unsigned char) s[q])) q++; tok(UNS, q - p); return; }
			c = y == 'a' ? 7 : (unsigned char) y;
			bool esc = zone ? in(y, "\\^-a$.[|(?*+{") : in(y, "\\^$?*+.|(){[a");
			tok(esc ? LIT : NOE, 2); return;
		}
		if (zone == 1) {
			if (x == ']') { zone = 0; tok(RB, 1); } else if (x == '-' && y == ']') { zone = 0; tok(RRB, 2); } else if (x == '-') { c = '-'; tok(RANGE, 1); } else { c = x; tok(LIT, 1); }
			return;
		}
		switch (x) {
		case '(': tok(OPEN, 1); break; case ')': tok(CLOSE, 1); break; case '|': tok(ALT, 1); break; case '^': case '$': tok(ANCH, 1); break;
		case '*': tok(QUANT, 1); break; case '+': tok(PLUS, 1); break; case '?': tok(OPT, 1); break; case '{': zone = 2; tok(LC, 1); break;
		case '[': zone = 1; if (y == '^' && p + 2 < s.size() && s[p + 2] == ']') tok(LBIC, 3); else if (y == '^') tok(LBI, 2); else if (y == ']') tok(LBC, 2); else tok(LB, 1); break;
		default: c = x; tok(LIT, 1);
		}
	}
	Want w; bool bad = false;
	bool fail(Want::K k, unsigned a0, unsigned b) { if (!bad) { bad = true; w.k = k; w.a0 = w.a1 = a0; w.b = b; } return false; }
	bool syn() { return fail(Want::SYN, prev, prev); }
	bool uns() { size_t a = ts; next(); return fail(Want::UNSUP, a, a); }
	bool negrange(int lo, int hi, size_t a0, size_t a1, size_t b) { if (lo > hi) { fail(Want::NEGRANGE, a0, b); w.a1 = a1; return false; } return true; }
	bool endpoint(int &v, size_t &e) { // end of a range
		if (t == UNS) return uns();
		if (t != LIT && t != RANGE) return syn();
		v = c; e = te; next(); return true;
	}
	bool cls() {
		size_t open = ts; T o = t; next(); int lo, hi; size_t e, a;
		if (o == LB || o == LBI) {
			if (t == RANGE) { a = ts; lo = '-'; next(); if (t == RANGE) { next(); if (!endpoint(hi, e)) return false; if (!negrange(lo, hi, a, a, e)) return false; } }
		} else if (t == RANGE) { next(); if (!endpoint(hi, e)) return false; if (!negrange(']', hi, open, open + (o == LBC ? 1 : 2), e)) return false; }
		for (;;) {
			if (t == UNS) return uns();
			if (t == LIT) { lo = c; a = ts; next(); if (t == RANGE) { next(); if (!endpoint(hi, e)) return false; if (!negrange(lo, hi, a, a, e)) return false; } }
			else if (t == NOE) next();
			else break;
		}
		if (t != RB && t != RRB) return syn();
		next(); return true;
	}
	bool alt() {
		for (;;) {
			bool anch = false; // an anchor takes no count
			switch (t) {
			case ANCH: anch = true; // fall through
			case LIT: case NOE: next(); break;
			case UNS: return uns();
			case LB: case LBI: case LBC: case LBIC: if (!cls()) return false; break;
			case OPEN: next(); if (!expr()) return false; if (t != CLOSE) return syn(); next(); break;
			default: return true;
			}
			if (t == QUANT || t == PLUS || t == OPT) { next(); if (anch) return syn(); }
			else if (t == LC) {
				size_t a = ts; next(); if (t != NUM) return syn(); unsigned m = num, n = m; next();
				bool inf = false; size_t b;
				if (t == SEP) { next(); if (t == NUM) { n = num; next(); } else inf = true; }
				if (t != RC) return syn(); b = te; next();
				if (!inf && n < m) { fail(Want::NEGCOUNT, a, b); w.m = m; w.n = n; return false; }
				if (anch && (inf || n > 1 || (m == 0 && n == 1))) return syn();
			} else continue;
			if (t == OPT || t == PLUS) return uns();
		}
	}
	bool expr() { for (;;) { if (!alt()) return false; if (t != ALT) return true; next(); } }
	Want parse() { if (expr() && t != END) syn(); return w; }
};
static bool is_syn(int e) { return e >= RE_EXSUB && e <= RE_EXESC; }
static bool same(const Nfa &a, const Nfa &b) {
	if (a.start != b.start || a.n() != b.n()) return false;
	for (size_t i = 0; i < a.n(); i++) {
		auto &x = a.s[i], &y = b.s[i];
		if (x.end != y.end || x.ids != y.ids || x.eager != y.eager || x.e.size() != y.e.size() || x.eps != y.eps) return false;
		for (size_t j = 0; j < x.e.size(); j++) if (x.e[j].second != y.e[j].second || x.e[j].first != y.e[j].first) return false;
	}
	return true;
}
static const char *dname(enum re_dialect d) { return d == RE_LIKE ? "like" : d == RE_LITERAL ? "literal" : d == RE_GLOB ? "glob" : d == RE_NATIVE ? "native" : d == RE_PCRE ? "pcre" : "sql"; }
struct Once { const std::string *s; size_t p; int after; };
static int once(void *o) { Once *x = (Once *) o; if (x->p < x->s->size()) return (unsigned char) (*x->s)[x->p++]; x->after++; return EOF; }
static FILE *F; static char *FB; static size_t FN;
static void one(enum re_dialect d, const std::string &t, int flags, const Want *w) {
	if (!H.begin([&] { return std::string(dname(d)) + fmt(" flags %d ", flags) + show(t); })) return;
	Comp c = rx_comp(d, t, flags); int L = t.size();
	if (c.f) {
		H.nontrivial++;
		if (w && w->k != Want::OK) H.fail("accepted", fmt("compiled; want an error at %u-%u", w->a0, w->b));
	} else {
		H.counters["refused"]++;
		int e = c.e.e; std::string got = fmt("error %s at %u-%u", re_strerror((enum re_errno) e), c.e.start.byte, c.e.end.byte);
		if (e == RE_ESUCCESS || e == RE_EERRNO) H.fail("no-error", fmt("failed with %s", got.c_str()));
		else if (!*re_strerror((enum re_errno) e)) H.fail("no-message", got);
		if (!(e & RE_MARK)) H.fail("no-position", got);
		else if (c.e.start.byte > c.e.end.byte || (int) c.e.end.byte > L) H.fail("position", fmt("%s in a pattern of %d bytes", got.c_str(), L));
		if (e & RE_ESC && (memchr(c.e.esc, 0, sizeof c.e.esc) == nullptr || !*c.e.esc)) H.fail("esc", got);
		if (e == RE_ENEGRANGE && (memchr(c.e.set, 0, sizeof c.e.set) == nullptr || !strchr(c.e.set, '-'))) H.fail("set", got);
		if (w) {
			bool ok = w->k == Want::OK ? e == RE_EUNSUPPORTED && c.e.start.byte == 0 && (int) c.e.end.byte <= L : true;
			if (!ok) H.fail("refused", got);
			if (w->k != Want::OK) {
				bool kind = w->k == Want::SYN ? is_syn(e) : w->k == Want::UNSUP ? e == RE_EUNSUPPORTED : w->k == Want::NEGRANGE ? e == RE_ENEGRANGE : e == RE_ENEGCOUNT;
				if (!kind) H.fail("kind", fmt("%s; want kind %d", got.c_str(), (int) w->k));
				else if (c.e.start.byte < w->a0 || c.e.start.byte > w->a1 || c.e.end.byte != w->b) H.fail("where", fmt("%s; want %u-%u", got.c_str(), w->a0, w->b));
				if (kind && w->k == Want::NEGCOUNT && (c.e.m != w->m || c.e.n != w->n)) H.fail("counts", fmt("%u,%u; want %u,%u", c.e.m, c.e.n, w->m, w->n));
			}
		}
		rewind(F); re_ferror(F, d, &c.e, H.idx % 3 ? nullptr : "file", H.idx % 5 < 2 && t.find('\0') == std::string::npos ? t.c_str() : nullptr); fflush(F);
		long n = ftell(F); std::string m(FB, n);
		if (n < 3 || m.back() != '\n' || m.find(": ") == std::string::npos) H.fail("message", show(m));
	}
	// the same again: without somewhere to put errors; by another reader; read no further than the end
	{
		Once o{&t, 0, 0}; errno = 0; struct fsm *g = re_comp(d, once, &o, nullptr, (enum re_flags) flags, nullptr);
		if (!g != !c.f) H.fail("err-null", "a different outcome without an err");
		if (g && o.p != t.size()) H.fail("reader", fmt("%zu of %d bytes read", o.p, L));
		if (g && c.f && H.idx % 3 == 0 && !same(extract(g), extract(c.f))) H.fail("unstable", "a different machine the second time");
		if (g) fsm_free(g);
	}
	if (t.find('\0') == std::string::npos && H.idx % 3 == 1) {
		const char *s = t.c_str(); struct re_err e; memset(&e, 0x5a, sizeof e); struct fsm *g = re_comp(d, fsm_sgetc, &s, nullptr, (enum re_flags) flags, &e);
		if (!g != !c.f || (!g && (e.e != c.e.e || e.start.byte != c.e.start.byte || e.end.byte != c.e.end.byte || (e.e == RE_ENEGCOUNT && (e.m != c.e.m || e.n != c.e.n)) || (e.e & RE_ESC && strcmp(e.esc, c.e.esc)) || (e.e == RE_ENEGRANGE && strcmp(e.set, c.e.set))))) H.fail("reader", "a different outcome from fsm_sgetc");
		if (g && c.f && !same(extract(g), extract(c.f))) H.fail("reader", "a different machine from fsm_sgetc");
		if (g) fsm_free(g);
	}
	if (c.f) fsm_free(c.f);
}
static const int FL[] = { 0, RE_ICASE, RE_ANCHORED, RE_EXTENDED, RE_SINGLE | RE_REVERSE, RE_END_NL | RE_EXTENDED | RE_ANCHORED, RE_SAVE_LINKAGE_INFO };
static bool tokens(enum re_dialect d, const std::vector<std::string> &v, int L) {
	std::vector<unsigned char> ix; for (size_t i = 0; i < v.size(); i++) ix.push_back(i);
	bool ok = true;
	all_strings(ix, L, [&](const std::string &s) { if (!ok || H.stop()) return ok = false; if (!H.take()) return true; std::string t; for (unsigned char c : s) t += v[c]; one(d, t, FL[H.idx % 7], nullptr); return true; });
	return ok;
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	F = open_memstream(&FB, &FN);
	auto bytes = [](const std::string &s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; };
	bool ok = true;
	// against the grammar
	int L = lite ? 3 : T ? 6 : 5;
	std::string A = "a()[]{}12,-^$|*?+\\.";
	all_strings(std::vector<unsigned char>(A.begin(), A.end()), L, [&](const std::string &t) {
		if (!ok || H.stop()) return ok = false;
		if (!H.take()) return true;
		if (t.find("(?") != std::string::npos || t.find("(*") != std::string::npos) return true;
		Pcre p(t); Want w = p.parse(); one(RE_PCRE, t, FL[H.idx % 7], &w); return true; });
	// one class, longer
	std::string K = "a-]^\\[\x01" "1)";
	if (ok) all_strings(std::vector<unsigned char>(K.begin(), K.end()), lite ? 4 : T ? 7 : 6, [&](const std::string &s) {
		if (!ok || H.stop()) return ok = false;
		if (!H.take()) return true;
		std::string t = "x[" + s; Pcre p(t); Want w = p.parse(); one(RE_PCRE, t, FL[H.idx % 7], &w); return true; });
	std::string Q = "1209,}a{+?";
	if (ok) all_strings(std::vector<unsigned char>(Q.begin(), Q.end()), lite ? 4 : T ? 6 : 5, [&](const std::string &s) {
		if (!ok || H.stop()) return ok = false;
		if (!H.take()) return true;
		size_t d = 0, run = 0; for (char c : s) { run = isdigit((unsigned char) c) ? run + 1 : 0; d = std::max(d, run); } if (d > 3) return true; // large machines, not more syntax
		std::string t = "xa{" + s; Pcre p(t); Want w = p.parse(); one(RE_PCRE, t, FL[H.idx % 7], &w); return true; });
	// everything else: no crash, an error which says something, and positions within the text
	std::string odd = std::string("a0\\[]()?*{}:-#^|ciQExo\n", 23) + std::string(1, 0) + "\xff<";
	L = lite ? 3 : T ? 5 : 4;
	if (ok) ok = tokens(RE_PCRE, bytes(odd), L);
	std::vector<std::string> tk = { "a", ")", "(?", "(?:", "(?#", "(?<n>", "(?<", "(?=", "(*", "(*ACCEPT)", "i", "-", "xx", "q", ":", "\\Q", "\\E", "\\", "\\x{", "\\o{", "\\c", "\\0", "41}", "777}", "99999999999999999999}", "]", "[", "[^", "[:alpha:]", "[:", "\\d", "\\1", "{", "1,2}", "4294967296}", "#", "\n", " ", std::string(1, 0), "|", "+" };
	if (ok) ok = tokens(RE_PCRE, tk, lite ? 2 : T ? 4 : 3);
	if (ok) ok = tokens(RE_NATIVE, bytes(std::string("ax01\\[]()?*{},-^$|:", 19) + std::string(1, 0)), L);
	if (ok) ok = tokens(RE_NATIVE, { "a", "[", "[^", "]", "[:alpha:]", "[:", "\\x", "\\777", "\\101", "41", "-", "z", "{", "3,2}", "2}", "4294967296}", ",", "(", ")", "|", "*", "^", "$", "\\", std::string(1, 0), "\xff" }, lite ? 2 : T ? 5 : 4);
	if (ok) ok = tokens(RE_SQL, bytes("a_%[]()?*{},1-^|:"), L);
	if (ok) ok = tokens(RE_SQL, { "a", "z", "[", "]", "[:ALPHA:]", "[:alpha:]", "[:", "-", "^", "{", "1}", "2,1}", "4294967296}", ",", "(", ")", "|", "*", "_", "%", std::string(1, 0), "\xff" }, lite ? 2 : T ? 5 : 4);
	for (auto d : {RE_GLOB, RE_LIKE, RE_LITERAL}) if (ok) ok = tokens(d, bytes(std::string("a?*_%\\[]\n\xff", 10) + std::string(1, 0)), T ? 5 : lite ? 2 : 4);
	return H.finish();
}
