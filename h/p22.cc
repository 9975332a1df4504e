// P22: classes, escapes and case folding denote the right bytes.
#include "rx.h"
static Bytes S(const std::string &s) { Bytes b; for (unsigned char c : s) b.set(c); return b; }
static Bytes rng(int a, int z) { Bytes b; for (int c = a; c <= z; c++) b.set(c); return b; }
static std::map<std::string, Bytes> posix(bool pcre) {
	std::map<std::string, Bytes> m; Bytes up = rng('A', 'Z'), lo = rng('a', 'z'), di = rng('0', '9'), gr = rng(33, 126);
	m["alnum"] = up | lo | di; m["alpha"] = up | lo; m["ascii"] = rng(0, 127); m["cntrl"] = rng(0, 31) | rng(127, 127); m["digit"] = di; m["graph"] = gr; m["lower"] = lo;
	m["print"] = rng(32, 126); m["punct"] = gr & ~(up | lo | di); m["space"] = S(" \t\n\v\f\r"); m["upper"] = up; m["word"] = up | lo | di | S("_"); m["xdigit"] = di | rng('a', 'f') | rng('A', 'F');
	if (pcre) m["blank"] = S(" \t"); else { m["hspace"] = S(" \t"); m["vspace"] = S("\n\v\f\r"); }
	return m;
}
static std::map<char, Bytes> perl() {
	std::map<char, Bytes> m; m['d'] = rng('0', '9'); m['h'] = S(" \t\xa0"); m['s'] = S(" \t\n\v\f\r"); m['v'] = S("\n\v\f\r\x85"); m['w'] = rng('0', '9') | rng('a', 'z') | rng('A', 'Z') | S("_");
	for (char c : {'d', 'h', 's', 'v', 'w'}) m[c - 32] = ~m[c];
	return m;
}
static enum re_dialect D; static const char *dn;
// wanted: an expression, or an error if null
enum { INL_ON = 1 << 20, INL_OFF = 1 << 21 }; // case folding set by the pattern itself, against the compile flags
static bool chk(const std::string &t0, int flags, R want, int e = 0, int e2 = 0) {
	std::string t = flags & INL_ON ? "(?i)" + t0 : flags & INL_OFF ? "(?-i)" + t0 : t0; bool icase = flags & INL_ON || (flags & RE_ICASE && !(flags & INL_OFF)); flags &= INL_ON - 1;
	if (H.stop()) return false;
	if (!H.take()) return true;
	if (!H.begin([&] { return std::string(dn) + fmt(" flags %d ", flags) + show(t); })) return false;
	Comp c = rx_comp(D, t, flags | RE_ANCHORED);
	if (!want) {
		H.counters["refusals"]++;
		if (c.f) H.fail("accepted", fmt("compiled, want error %s", re_strerror((enum re_errno) e)));
		else if ((int) c.e.e != e && (int) c.e.e != e2) H.fail("error", fmt("error %s, want %s", re_strerror(c.e.e), re_strerror((enum re_errno) e)));
	} else if (!c.f) H.fail("refused", fmt("error %s", re_strerror(c.e.e)));
	else {
		int f = icase ? F_I : 0; R w = rx_resolve(want, f);
		Nfa g = extract(c.f), n = rx_nfa(w, RxOpt{true, true, false}); H.nontrivial++;
		Diff d = compare(n, g, CMP_END, 5000); if (d.differ) H.fail("language", d.why);
	}
	if (c.f) fsm_free(c.f);
	return true;
}
static bool both(const std::string &t, R want, int e = 0, int e2 = 0) { return chk(t, 0, want, e, e2) && chk(t, RE_ICASE, want, e, e2); }
static R one(const Bytes &b) { return rx_set(b, ""); }
static R seq(std::vector<Bytes> v) { std::vector<R> c; for (auto &b : v) c.push_back(one(b)); return rx_n(X_CAT, c); }
static Bytes B(int c) { Bytes b; b.set(c & 255); return b; }
struct Item { std::string t; Bytes s; bool nofirst = false; };
// how a negated class is folded: everything but the folded members
static R cls(const Bytes &b, bool neg) { auto x = std::make_shared<Rx>(); x->k = X_SET; x->set = neg ? ~b : b; x->type = neg; return x; }
static std::string C(int c) { return std::string(1, (char) c); }

static bool atoms(bool pcre) {
	std::string special = pcre ? "()^$?*+.|[{\\" : "()^$?*+.|[{\\";
	for (int c = pcre ? 1 : 0; c < 256; c++) if (c == 0 || !strchr(special.c_str(), c)) { if (!both(C(c), one(B(c)))) return false; if (!both("x" + C(c) + "y", seq({B('x'), B(c), B('y')}))) return false; }
	Bytes nonl; nonl.set(); nonl.reset('\n'); Bytes all; all.set();
	for (int ic : {0, (int) RE_ICASE}) { if (!chk(".", ic, one(nonl))) return false; if (!chk(".", ic | RE_SINGLE, one(all))) return false; }
	auto P = perl();
	std::map<int, int> ctl = {{'f', '\f'}, {'n', '\n'}, {'r', '\r'}, {'t', '\t'}};
	if (pcre) { ctl['a'] = '\a'; ctl['e'] = 27; } else ctl['v'] = '\v';
	for (int c = 0; c < 256; c++) {
		std::string t = "\\" + C(c); bool ok = true;
		if (pcre) {
			if (c && strchr("AZzEQclLuUpPo0x", c)) continue; // anchors, quoting, longer forms; or left unspecified
			if (P.count(c) && c < 128) ok = both(t, one(P[c]));
			else if (c == 'N') ok = both(t, one(nonl));
			else if (c == 'R') ok = both(t, rx_n(X_ALT, {seq({B('\r'), B('\n')}), one(S("\n\v\f\r\x85"))}));
			else if (c && strchr("CXGgkbBK123456789", c)) ok = both(t, nullptr, RE_EUNSUPPORTED);
			else ok = both(t, one(B(ctl.count(c) ? ctl[c] : c)));
		} else {
			if (c && strchr("01234567x", c)) continue;
			if (ctl.count(c) || (c && strchr("\\^$?*+.|(){[", c))) { if (c == '}' ) continue; ok = both(t, one(B(ctl.count(c) ? ctl[c] : c))); }
		}
		if (!ok) return false;
	}
	for (int c = 0; c < 256; c++) for (const char *h : {"%02x", "%02X"}) {
		std::string x = fmt(h, c);
		if (!both("\\x" + x, one(B(c))) || !both("\\x" + x + "0", seq({B(c), B('0')})) || !both("b\\x" + x + "x", seq({B('b'), B(c), B('x')}))) return false;
		if (pcre) { if (!both("\\x{" + x + "}", one(B(c))) || !both("\\x{000" + x + "}", one(B(c))) || !both("\\x{" + x + "}0", seq({B(c), B('0')}))) return false; }
	}
	if (pcre) {
		for (int c = 0; c < 16; c++) { if (!both(fmt("\\x%x", c), one(B(c))) || !both(fmt("\\x%xg", c), seq({B(c), B('g')})) || !both(fmt("\\x{%x}", c), one(B(c)))) return false; }
		if (!both("\\x", one(B(0))) || !both("\\xg", seq({B(0), B('g')})) || !both("\\x-", seq({B(0), B('-')}))) return false;
		for (unsigned long v : {256ul, 257ul, 511ul, 512ul, 0xfffful, 0x100000000ul, 0x100000041ul, ~0ul, 0xffffffffffffff41ul}) { if (!both(fmt("\\x{%lx}", v), nullptr, RE_EHEXRANGE) || !both(fmt("[\\x{%lx}]", v), nullptr, RE_EHEXRANGE) || !both(fmt("\\o{%lo}", v), nullptr, RE_EOCTRANGE) || !both(fmt("[\\o{%lo}]", v), nullptr, RE_EOCTRANGE)) return false; }
		if (!both("\\x{" + std::string(40, 'f') + "}", nullptr, RE_EHEXRANGE) || !both("\\o{" + std::string(60, '7') + "}", nullptr, RE_EOCTRANGE)) return false;
		if (!both("\\x{" + std::string(600, '0') + "41}", one(B('A'))) || !both("\\o{" + std::string(600, '0') + "101}", one(B('A')))) return false;
		for (int v = 0; v < 512; v++) for (const char *f : {"%o", "%03o", "000%o"}) { std::string t = "\\o{" + fmt(f, v) + "}"; if (!(v < 256 ? both(t, one(B(v))) : both(t, nullptr, RE_EOCTRANGE))) return false; }
		if (!both("\\0", one(B(0))) || !both("\\08", seq({B(0), B('8')})) || !both("\\0\\x\\015", seq({B(0), B(0), B(13)}))) return false;
		for (int v = 0; v < 8; v++) { if (!both(fmt("\\0%o", v), one(B(v))) || !both(fmt("\\0%o9", v), seq({B(v), B('9')})) || !both(fmt("\\0%o", v) + "a", seq({B(v), B('a')}))) return false; }
		for (int v = 0; v < 64; v++) { if (!both(fmt("\\0%02o", v), one(B(v))) || !both(fmt("\\0%02o7", v), seq({B(v), B('7')}))) return false; }
		for (int c = 32; c < 127; c++) { if (!both("\\c" + C(c), one(B((c >= 'a' && c <= 'z' ? c - 32 : c) ^ 0x40)))) return false; }
		for (int c = 0; c < 256; c++) { if (c < 32 || c > 126) { if (!H.stop() && H.take() && H.begin([&] { return "pcre \\c with byte " + std::to_string(c); })) { Comp r = rx_comp(D, "\\c" + C(c), RE_ANCHORED); if (r.f) { H.fail("accepted", "compiled"); fsm_free(r.f); } } } }
		if (!both("\\Q.*\\E.", seq({B('.'), B('*'), nonl})) || !both("a\\Eb", seq({B('a'), B('b')})) || !both("\\Q\\E", rx_empty())) return false;
		for (int c = 1; c < 256; c++) if (c != '\\') { if (!both("\\Q" + C(c) + "\\E", one(B(c))) || !both("[\\Q" + C(c) + "\\E]", one(B(c))) || !both("\\Q" + C(c) + "a\\Eb", seq({B(c), B('a'), B('b')}))) return false; }
		if (!both("\\Q\\\\E", one(B('\\')))) return false;
		for (auto &p : posix(true)) if (!both("[[:^" + p.first + ":]]", nullptr, RE_EXCLOSEGROUP, RE_EUNSUPPORTED)) return false; // documented as missing: never read as something else
	} else for (int v = 0; v < 512; v++) for (const char *f : {"%o", "%02o", "%03o"}) {
		std::string t = "\\" + fmt(f, v);
		if (!(v < 256 ? both(t, one(B(v))) : both(t, nullptr, RE_EOCTRANGE))) return false;
		if (!(v < 256 ? both("[" + t + "]", one(B(v))) : both("[" + t + "]", nullptr, RE_EOCTRANGE))) return false;
		if (v < 256 && t.size() == 4 && !both(t + "7", seq({B(v), B('7')}))) return false;
	}
	// sets which are empty, or everything, once folded: only where nothing else is left may they match nothing
	for (auto &p : std::vector<std::pair<const char *, Bytes>>{{"\\x00-@\\x5b-\\xff", ~rng('A', 'Z')}, {"\\x00-`{-\\xff", ~rng('a', 'z')}, {"\\x00-\\xff", all}, {"\\x00-AC-\\xff", ~S("B")}, {"\\x00-ac-\\xff", ~S("b")}})
		for (int neg = 0; neg < 2; neg++) for (int ic : {0, (int) RE_ICASE, (int) INL_ON, (int) INL_OFF | (int) RE_ICASE}) {
			if (ic >= INL_ON && !pcre) continue;
			std::string t = (neg ? "[^" : "[") + std::string(p.first) + "]"; R r = cls(p.second, neg), x = one(B('x'));
			if (!chk(t, ic, r) || !chk("x" + t, ic, rx_n(X_CAT, {x, r})) || !chk(t + "x", ic, rx_n(X_CAT, {r, x})) || !chk(t + "|x", ic, rx_n(X_ALT, {r, x})) || !chk("(" + t + ")*", ic, rx_rep(r, 0, -1)) || !chk(t + "?x", ic, rx_n(X_CAT, {rx_rep(r, 0, 1), x})) || !chk(t + "+", ic, rx_rep(r, 1, -1)) || !chk(t + "{2}", ic, rx_rep(r, 2, 2)) || !chk(t + "{0,2}", ic, rx_rep(r, 0, 2)) || !chk("x(" + t + "|x)x", ic, rx_n(X_CAT, {x, rx_n(X_ALT, {r, x}), x}))) return false;
		}
	return true;
}
static bool brackets(bool pcre, int depth, bool small) {
	std::vector<Item> it;
	for (const char *l : {"a", "Z", "0", " ", ".", "$", "[", "{", "\x80", "\xff", "\n", "k", "@", "`", "_", "|", ")"}) it.push_back({l, S(l)});
	it.push_back({"^", S("^"), true});
	for (const char *l : {"\\\\", "\\^", "\\-", "\\["}) it.push_back({l, S(l + 1)});
	it.push_back({"\\]", S("]")}); it.push_back({"\\f", B('\f')}); it.push_back({"\\n", B('\n')}); it.push_back({"\\r", B('\r')}); it.push_back({"\\t", B('\t')}); it.push_back({"\\x41", B('A')}); it.push_back({"\\x7A", B('z')});
	auto rg = [&](const char *t, int a, int z) { it.push_back({t, rng(a, z)}); };
	rg("a-f", 'a', 'f'); rg("X-c", 'X', 'c'); rg("\\x00-\\x1f", 0, 31); rg("\\x80-\\xff", 128, 255); rg("a-a", 'a', 'a'); rg("\\x00-\\xff", 0, 255); rg("!-~", 33, 126); rg("\\n-\\r", 10, 13); rg("\\--\\\\", '-', '\\'); rg("[-\\^", '[', '^'); rg("@-Z", '@', 'Z');
	for (auto &p : posix(pcre)) it.push_back({"[:" + p.first + ":]", p.second});
	if (pcre) {
		for (auto &p : perl()) it.push_back({"\\" + C(p.first), p.second});
		for (const char *l : {"\\$", "\\.", "\\|", "\\(", "\\?", "\\*", "\\+", "\\{", "\\B", "\\N", "\\R", "\\X", "\\y", "\\)", "\\/"}) it.push_back({l, S(l + 1)});
		it.push_back({"\\b", B(8)}); it.push_back({"\\a", B(7)}); it.push_back({"\\e", B(27)}); it.push_back({"\\x{7a}", B('z')}); it.push_back({"\\0", B(0)}); it.push_back({"\\012", B(10)}); it.push_back({"\\o{377}", B(255)});
		it.push_back({"\\Q]-^\\E", S("]-^")}); rg("\\0-\\o{11}", 0, 9); rg("\\a-\\e", 7, 27); it.push_back({"\\x", B(0)});
	} else { it.push_back({"\\v", B('\v')}); it.push_back({"\\101", B('A')}); it.push_back({"\\0", B(0)}); rg("\\101-\\132", 'A', 'Z'); it.push_back({std::string(1, 0), B(0)}); }
	// sequences which change meaning when joined
	auto joins = [&](const Item &a, const Item &b) {
		char l = a.t.back(), f = b.t[0];
		if (pcre && a.t == "\\x" && (isxdigit((unsigned char) f) || f == '{')) return true;
		if (pcre && a.t == "\\0" && f >= '0' && f <= '7') return true;
		if (!pcre && a.t.size() > 1 && a.t[0] == '\\' && isdigit((unsigned char) a.t[1]) && f >= '0' && f <= '7') return true;
		(void) l; return false; };
	size_t n = it.size();
	auto run = [&](std::vector<int> v, const char *post, bool cb, bool dash, bool neg, int ic) {
		std::string t = neg ? "[^" : "["; Bytes b; if (cb) { t += "]"; b.set(']'); } if (dash) { t += "-"; b.set('-'); }
		for (size_t i = 0; i < v.size(); i++) { if (i && joins(it[v[i - 1]], it[v[i]])) return true; if (!i && it[v[i]].nofirst && t == "[") return true; t += it[v[i]].t; b |= it[v[i]].s; }
		if (*post) b.set('-'); t += post; t += "]";
		if (t == "[]" || t == "[^]" ) return true;
		return chk(t, ic, cls(b, neg)); };
	for (int neg = 0; neg < 2; neg++) for (int ic : {0, (int) RE_ICASE, (int) INL_ON, (int) INL_OFF | (int) RE_ICASE}) {
		if (ic >= INL_ON && !pcre) continue;
		for (int e = 0; e < 8; e++) { // edges: ] first, - first, - last
			bool cb = e & 1, dash = e & 2; const char *post = e & 4 ? "-" : "";
			if (cb && dash) continue; // "]-" begins a range
			if (!run({}, post, cb, dash, neg, ic)) return false;
			for (size_t i = 0; i < n; i++) { if (!run({(int) i}, post, cb, dash, neg, ic)) return false;
				if (depth >= 2) for (size_t j = 0; j < n; j++) { if (small && e && (i * 7 + j) % 5) continue; if (!run({(int) i, (int) j}, post, cb, dash, neg, ic)) return false; } }
		}
		if (depth >= 3) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (!run({(int) i, (int) j, (int) k}, "", 0, 0, neg, ic)) return false;
		if (!chk(neg ? "[^+--a]" : "[+--a]", ic, cls(rng('+', '-') | B('a'), neg))) return false;
		for (int z = '-'; z < 256; z++) if (!strchr("]\\-[", z)) { std::string p = neg ? "[^" : "["; // ranges from - and from ], at the start
			if (!chk(p + "--" + C(z) + "]", ic, cls(rng('-', z), neg))) return false;
			if (z >= ']') if (!chk(p + "]-" + C(z) + "]", ic, cls(rng(']', z), neg))) return false; }
	}
	return true;
}
static bool ranges(bool raw) {
	for (int a = 0; a < 256; a++) for (int z = 0; z < 256; z++) {
		if (raw && (a < 1 || z < 1 || strchr("]\\-[^", a) || strchr("]\\-[", z))) continue;
		std::string r = raw ? C(a) + "-" + C(z) : fmt("\\x%02x-\\x%02X", a, z);
		for (int v = 0; v < 8; v++) { if (v == 3 && (a + z) % 3) continue; if (v > 3 && (D != RE_PCRE || (a + z) % 5 != v - 4)) continue; if (!chk((v & 1 ? "[^" : "[") + r + "]", (v & 2 ? RE_ICASE : 0) | (v < 4 ? 0 : v & 2 ? INL_OFF : INL_ON), a <= z ? cls(rng(a, z), v & 1) : nullptr, RE_ENEGRANGE)) return false; }
	}
	return true;
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	for (int d = 0; d < 2; d++) {
		D = d ? RE_NATIVE : RE_PCRE; dn = d ? "native" : "pcre";
		if (!atoms(!d) || !brackets(!d, lite ? 1 : T ? 3 : 2, !T) || (!lite && (!ranges(false) || !ranges(true)))) break;
	}
	return H.finish();
}
