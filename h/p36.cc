// P36: lexers generated by lx give the tokens their specification says.
// LINK: -ldl
#include "lxref.h"
static bool T; struct Pend { int64_t idx; LGen g; std::vector<LTab> tb; bool long_; }; static std::vector<Pend> pend; static size_t pbytes;
static void exec(Pend &p) { H.states += 1; for (auto &t : p.tb) H.states += t.t.size(); std::string al = lx_alphabet(p.tb), key, why; lx_inputs(al, T ? 30000 : 2500, [&](const std::string &s) { if (!(why = lx_ask(p.g, p.tb, s, &key)).empty()) { if (key != "position") { H.fail(key, why); return false; } why = ""; } return true; }); }
static void at(Pend &p, const std::function<void()> &f) { int64_t oi = H.idx; auto oc = H.cur; H.idx = p.idx; H.sh->idx = p.idx; std::string t = p.g.sp.text; H.cur = [=] { return t; }; f(); H.idx = oi; H.cur = oc; H.sh->idx = oi; }
static void flush() {
	if (pend.empty()) return; std::string err; std::vector<LGen *> gs; for (auto &p : pend) gs.push_back(&p.g); void *h = lx_compile(gs, &err);
	if (h) { for (auto &p : pend) at(p, [&] { exec(p); }); dlclose(h); } else for (auto &p : pend) at(p, [&] { std::string e; void *h = lx_compile({ &p.g }, &e); if (h) { exec(p); dlclose(h); } else H.fail("compile", e.substr(0, 600)); });
	pend.clear(); pbytes = 0;
}
static void run(LSpec sp) {
	std::string t = sp.text; if (!H.begin([=] { return t; })) return; std::vector<LTab> tb; bool refuse = sp.odd; for (auto &z : sp.z) { tb.push_back(lx_table(z)); refuse |= tb.back().conflict || tb.back().empty_ok; }
	if (sp.em) { std::string out, err; int r = lx_spawn({ LXP, "-l", "test" }, sp.text, &out, &err); H.counters["an operand matches nothing"]++; if (r >= 256) H.fail("crash", fmt("signal %d ", r - 256) + err.substr(0, 300)); return; }
	if (refuse) { LGen g; g.sp = sp; std::string out, err; int r = lx_spawn({ LXP, "-l", "c", "-b", "dyn", "-k", H.idx % 3 == 0 ? "str" : H.idx % 3 == 1 ? "pair" : "getc" }, sp.text, &out, &err); H.counters["refused"]++; if (r >= 256) H.fail("crash", fmt("signal %d ", r - 256) + err.substr(0, 300)); else if (r == 0 || !out.empty()) H.fail("refuse", fmt("exits %d with %zu bytes of code; the specification is %s", r, out.size(), sp.odd ? "wrong" : "ambiguous or matches nothing")); else if (err.empty()) H.fail("refuse", "nothing said"); return; }
	H.nontrivial++; int n = 0; for (int k = 0; k < (T ? 3 : 1); k++) { Pend p; p.idx = H.idx; p.tb = tb; p.g.sp = sp; p.g.o = LxOpt{ {}, (int) ((H.idx + k) % 3), 2, 0, true, false, false }; (void) n; std::string err; int r = lx_generate(p.g, fmt("%lld_%d", (long long) H.idx, k), &err); if (r) { H.fail(r >= 256 ? "crash" : "refuse", fmt("lx: %s%d ", r >= 256 ? "signal " : "exits ", r & 255) + err.substr(0, 300)); return; } pbytes += p.g.src.size(); pend.push_back(p); }
	if (pbytes > 250000 || H.only >= 0) flush();
}
static bool mine() { return !H.stop() && H.take(); }
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough; LXP = H.arg["lx"]; char tn[] = "lx-XXXXXX"; if (!mkdtemp(tn)) return 2; lxdir = tn; setenv("TMPDIR", tn, 1); lx_guard();
	auto W = [](const char *t, const std::string &w) { return LX{ t, lx_word(w), 7 }; }; auto C = [](const char *t, const std::string &w) { return LX{ t, lx_chars(w), 7 }; }; std::string all(LXS, LXR);
	LX a = W("'a'", "a"), b = W("'b'", "b"), c = W("\"c\"", "c"), ab = W("'ab'", "ab"), nl = W("\"\\n\"", "\n"), sp = W("' '", " "), any = C("/./", all), ap{ "/a+/", lx_plus(lx_word("a")), 7 }, set = C("/[ab]/", "ab"), asb{ "/a*b/", lx_cat(lx_opt(lx_plus(lx_word("a"))), lx_word("b")), 7 }, na = C("/[^a]/", "bc \nzA\xff"), alt{ "/ab|ba/", lx_alt(lx_word("ab"), lx_word("ba")), 7 }, ci = C("/A/i", "aA"), abc = W("/abc/", "abc"), hex = W("\"\\x61\\x0a\"", "a\n"), oct = W("\"\\142\\040\"", "b "), ff = W("\"\\xff\"", "\xff"), em = W("''", ""), emr{ "/a|/", lx_opt(lx_word("a")), 7 }, bsl = W("'\\'", "\\"), anyp{ "/.+/", lx_plus(lx_chars(all)), 7 }, wsp{ "/[\\n ]+/", lx_plus(lx_chars("\n ")), 7 }, nb{ "/[^b]*c/", lx_cat(lx_opt(lx_plus(lx_chars("ac \nzA\xff"))), lx_word("c")), 7 };
	std::vector<LX> pool{ a, b, ab, nl, any, ap, set, asb, na, alt, ci, abc, hex, oct, em, emr, wsp, nb, anyp };
	// one, two and three rules
	for (auto &x : pool) for (int k = 0; k < 2; k++) { if (!mine()) continue; LSpec s; s.rule(0, x, k ? "one" : ""); run(s); }
	static const char *tk[][3] = { { "x", "y", "w" }, { "x", "x", "" }, { "x", "", "y" }, { "", "y", "y" }, { "", "", "y" } };
	for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < pool.size(); j++) for (auto &t : tk) { if (!mine()) continue; if (!T && H.idx % 3) continue; LSpec s; s.rule(0, pool[i], t[0], nullptr, H.idx % 5 ? "\n" : " "); if (H.idx % 7 == 0) s.text += "# a comment; 'a' -> $b\n"; s.rule(0, pool[j], t[1]); run(s); }
	{ int k = 0; for (auto &x : pool) for (auto &y : pool) for (auto &w : pool) for (auto &t : tk) { if (!mine()) continue; k++; if (!T ? k % 101 : k % 11) continue; LSpec s; s.rule(0, x, t[0]); s.rule(0, y, t[1]); s.rule(0, w, t[2]); run(s); } }
	// expressions: every tree of up to two operators, and some of three, in one place and then through a name or a token
	std::vector<LX> at0{ a, ab, set, em, ap }, l1, l2; const char un[] = "*+?~!^", bi[] = "|&-\\.";
	for (auto &x : at0) for (const char *u = un; *u; u++) l1.push_back(lx_un(*u, x)); for (auto &x : at0) for (auto &y : at0) for (const char *o = bi; *o; o++) l1.push_back(lx_bin(*o, x, y));
	for (auto &x : l1) for (const char *u = un; *u; u++) l2.push_back(lx_un(*u, x)); for (auto &x : l1) for (size_t k = 0; k < at0.size(); k++) for (const char *o = bi; *o; o++) { auto &y = at0[k]; l2.push_back(lx_bin(*o, x, y)); l2.push_back(lx_bin(*o, y, x)); }
	{ size_t n2 = l2.size(); for (size_t i = 0; i < n2; i += 29) for (size_t j = 0; j < l1.size(); j += 17) l2.push_back(lx_bin(bi[(i + j) % 5], l2[i], l1[j])); for (size_t i = 0; i < n2; i += 31) for (const char *u = un; *u; u++) l2.push_back(lx_un(*u, l2[i])); }
	{ int k = 0; for (auto *l : { &at0, &l1, &l2 }) for (auto &x : *l) for (int how = 0; how < 6; how++) { if (!mine()) continue; k++; if (l == &l2 && (T ? k % 5 : k % 37)) continue; if (l == &l1 && !T && k % 3) continue; LSpec s; LX q = lx_bin('.', c, x); switch (how) {
		case 0: s.rule(0, q, "e"); s.rule(0, ab, "f"); s.rule(0, sp, ""); break;
		case 1: s.em = x.em || lx_empty(x.d); s.text = "v = " + x.t + ";\n"; s.rule(0, lx_bin('.', c, LX{ "v", x.d, 7 }), "e"); s.rule(0, nl, ""); break;
		case 2: s.em = lx_empty(x.d); s.rule(0, q, "e"); s.rule(0, lx_bin('.', nl, LX{ "$e", q.d, 7 }), "f"); break;
		case 3: s.rule(0, lx_bin('.', x, c), "e"); s.rule(0, nl, "n"); break;
		case 4: s.em = x.em || lx_empty(x.d); s.text = "v = 'z'; v = " + x.t + "; w = v 'b'; v = 'b';\n"; s.rule(0, lx_bin('.', c, LX{ "w", lx_cat(x.d, lx_word("b")), 7 }), "e"); s.rule(0, LX{ "v", lx_word("b"), 7 }, "v"); break;
		case 5: s.rule(0, q, "e"); s.rule(0, W("'zz'", "zz"), "e"); s.rule(0, lx_bin('-', anyp, lx_bin('|', LX{ "$e", lx_alt(q.d, lx_word("zz")), 7 }, nl)), "f"); s.rule(0, lx_bin('&', nl, anyp), "g"); break; } run(s); } }
	// zones
	std::vector<LX> op{ a, ab, LX{ "/b+/", lx_plus(lx_word("b")), 7 }, set }, cl{ b, LX{ "'bc'", lx_word("bc"), 7 }, nl, LX{ "/c+/", lx_plus(lx_word("c")), 7 }, lx_bin('|', a, c) };
	for (auto &o : op) for (auto &x : cl) for (int ot = 0; ot < 2; ot++) for (int ct = 0; ct < 3; ct++) for (int body = 0; body < 12; body++) for (int outer = 0; outer < 4; outer++) {
		if (!mine()) continue; if (!T && H.idx % 7) continue; LSpec s; auto out = [&] { if (outer & 1) s.rule(0, W("'z'", "z"), "z"); else s.rule(0, lx_bin('-', wsp, nl), ""); }; if (outer < 2) out(); std::string on = ot ? "o" : "", cn = ct == 1 ? "p" : ct == 2 ? "o" : ""; const LD *xd = &x.d; LD zd; int zn = s.z.size(); s.z.push_back(LZone{{}, 0});
		s.text += o.t + LSpec::arrow(on); s.z[0].m.push_back({ o.d, s.token(on), zn, false }); if (body == 11) { s.text += ", 'zz' -> $zz"; s.z[0].m.push_back({ lx_word("zz"), s.token("zz"), zn, false }); } s.text += " .. " + x.t + LSpec::arrow(cn); s.z[zn].m.push_back({ x.d, s.token(cn), 0, false }); if (body == 10) { s.text += ", 'z' -> $q"; s.z[zn].m.push_back({ lx_word("z"), s.token("q"), 0, false }); zd = lx_alt(x.d, lx_word("z")); xd = &zd; }
		if (body == 0 || body == 11) { s.text += ";\n"; s.z[zn].m.push_back({ lx_sub(any.d, *xd), -1, -1, true }); } else { s.text += " {\n"; switch (body) {
			case 1: s.rule(zn, any, "x", xd); break;
			case 2: case 10: s.rule(zn, a, "x", xd); s.rule(zn, W("'bb'", "bb"), "y", xd); break;
			case 3: s.rule(zn, ap, "x", xd); s.rule(zn, sp, "", xd); break;
			case 4: s.rule(zn, sp, "", xd); s.rule(zn, LX{ "/[ab]+/", lx_plus(lx_chars("ab")), 7 }, "x", xd); break;
			case 5: { int y = s.z.size(); s.z.push_back(LZone{{}, zn}); s.text += "'a' .. 'c';"; s.z[zn].m.push_back({ lx_sub(lx_word("a"), *xd), -1, y, false }); s.z[y].m.push_back({ lx_word("c"), -1, zn, false }); s.z[y].m.push_back({ lx_sub(any.d, lx_word("c")), -1, -1, true }); break; }
			case 6: { int y = s.z.size(); s.z.push_back(LZone{{}, zn}); s.text += "v = 'a';\n' ' v -> $q .. /b/ -> $r { v 'c' -> $x; /./ -> $s; }\n"; s.z[zn].m.push_back({ lx_sub(lx_word(" a"), *xd), s.token("q"), y, false }); LD e = lx_word("b"); s.z[y].m.push_back({ e, s.token("r"), zn, false }); s.z[y].m.push_back({ lx_sub(lx_word("ac"), e), s.token("x"), -1, false }); s.z[y].m.push_back({ lx_sub(any.d, e), s.token("s"), -1, false }); s.rule(zn, W("'z'", "z"), "z", xd); break; }
			case 7: { int y = s.z.size(); s.z.push_back(LZone{{}, zn}); s.text += "'a' -> $q {"; s.z[zn].m.push_back({ lx_sub(lx_word("a"), *xd), s.token("q"), y, false }); s.rule(y, any, "s"); s.text += "}\n"; s.rule(zn, sp, "", xd); break; }
			case 8: s.rule(zn, any, "", xd); break;
			case 9: s.rule(zn, anyp, "x", xd); s.rule(zn, b, "y", xd); break; }
			s.text += "}\n"; }
		if (outer >= 2) out(); run(s); }
	// zones which cannot be left, and deep ones
	for (auto &o : op) for (auto &x : pool) for (int k = 0; k < 4; k++) { if (!mine()) continue; LSpec s; s.z.push_back(LZone{{}, 0}); s.text = o.t + (k & 1 ? " -> $o {\n" : " {\n"); s.z[0].m.push_back({ o.d, s.token(k & 1 ? "o" : ""), 1, false }); s.rule(1, x, k & 2 ? "x" : ""); s.rule(1, W("'zz'", "zz"), "z"); s.text += "}\n"; if (k & 2) s.rule(0, W("/z\\n/", "z\n"), "z"); run(s); }
	for (int n = 1; n <= 5; n++) for (int k = 0; k < 8; k++) { if (!mine()) continue; LSpec s; int z = 0; std::vector<LD> ex; for (int i = 0; i < n; i++) { int y = s.z.size(); s.z.push_back(LZone{{}, z}); LD o = lx_word("a"), e = lx_word("b"); if (!ex.empty()) o = lx_sub(o, ex.back()); s.text += "'a'" + LSpec::arrow(k & 1 ? "o" : "") + " .. 'b'" + LSpec::arrow(k & 2 ? "p" : "") + " {\n"; s.z[z].m.push_back({ o, s.token(k & 1 ? "o" : ""), y, false }); s.z[y].m.push_back({ e, s.token(k & 2 ? "p" : ""), z, false }); ex.push_back(e); z = y; } s.rule(z, k & 4 ? sp : any, "x", &ex.back()); for (int i = 0; i < n; i++) { s.text += "}\n"; z = s.z[z].parent; if (i % 2 == 0) s.rule(z, W("'z'", "z"), fmt("t%d", i), z ? &ex[n - 2 - i] : nullptr); } run(s); }
	// many rules, many ways in
	for (int n : { 3, 4, 5, 8, 9, 16, 17, 33 }) for (int k = 0; k < 3; k++) { if (!mine()) continue; LSpec s; for (int i = 0; i < n; i++) { std::string w; for (int j = 0; j < 6; j++) w += i >> j & 1 ? 'b' : 'a'; w = k == 2 ? std::string(i + 1, 'a') : w; s.rule(0, LX{ "'" + w + "'", lx_word(w), 7 }, k == 1 && i % 3 == 0 ? "" : fmt("t%d", k == 2 ? i : i / 2)); } run(s); }
	// wrong ones
	for (const char *t : { "", ";", "'a'", "'a' -> $a", "'a' -> a;", "-> $a;", "'a' ->;", "'a' -> $a 'b' -> $b;", "$a;;", "v = ;", "v 'a';", "'a' .. ;", ".. 'b';", "'a' .. 'b' {", "'a' .. 'b' }", "'a' .. 'b' { }", "'a' { }", "{ 'a'; }", "('a';", "'a');", "'a' |;", "| 'a';", "'a' - ;", "~;", "* 'a';", "'a' & ;", "v -> $x;", "'a' -> $x; v;", "'a' .. 'b' { v -> $x; }", "'a' { 'b' { v; } }", "'a' .. v;", "'a", "\"a", "/a", "/a/q -> $x;", "/(/ -> $x;", "/a{3,1}/ -> $x;", "@", "'a' @;", "'a' . 'b';", "'a', 'b';", "'a', 'b' { 'c'; }", "'a' ... 'b';", "'a' = 'b';", "v == 'a';", "'a' -> $x = 'b';" }) { if (!mine()) continue; LSpec s; s.text = t; s.odd = true; run(s); }
	// long patterns
	for (int n : { 100, 510, 511, 512, 513, 600, 1024, 5000 }) for (int k = 0; k < 2; k++) { if (!mine()) continue; LSpec s; std::string w(n, 'a'); s.rule(0, k ? LX{ "/" + w + "/", lx_word(w), 7 } : LX{ "'" + w + "'", lx_word(w), 7 }, "x"); s.rule(0, b, "y"); if (n <= 512) run(s); else { if (!H.begin([=] { return fmt("a pattern of %d", n); })) continue; std::string o, e; int r = lx_spawn({ LXP, "-l", "test" }, s.text, &o, &e); if (r != 0 && r != 1) H.fail("crash", fmt("signal %d ", r - 256) + e.substr(0, 200)); } }
	// no sequence of tokens makes lx crash
	{ static const char *tok[] = { "'a'", "\"b\"", "/c/", "v", "$t", "=", ";", "..", "->", "{", "}", "(", ")", "*", "+", "?", "~", "!", "^", "-", ".", "|", "&", ",", "@", "''" }; const int N = sizeof tok / sizeof *tok; int64_t k = 0; for (int len = 1; len <= (T ? 4 : 3); len++) { int64_t m = 1; for (int i = 0; i < len; i++) m *= N; for (int64_t x = 0; x < m; x += 200) { if (!mine()) continue; if (!H.begin([=] { return fmt("token sequences %d.%lld", len, (long long) x); })) continue; for (int64_t y = x; y < x + 200 && y < m; y++) { if ((k = y * 7919 % 1009, len > 2) && (T ? len > 3 && k % 37 : k % 5)) continue; std::string s = ""; int64_t r = y; for (int i = 0; i < len; i++, r /= N) s += std::string(tok[r % N]) + " "; if (y % 3) s += ";"; if (y % 2) s = "v = 'a'; " + s; std::string err, out; int st = lx_spawn({ LXP, "-l", "test" }, s, &out, &err); H.traces++; if (st >= 256 || err.find("Assertion") != std::string::npos) { H.fail("crash", s + fmt(": %d ", st) + err.substr(0, 200)); break; } } } } }
	flush(); rmdir(lxdir.c_str()); return H.finish();
}
