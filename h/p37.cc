// P37: where generated lexers say tokens are, and the text they give, for every way of reading.
// LINK: -ldl
#include "lxref.h"
static bool T; struct Pend { int64_t idx; std::string name; LGen g; std::vector<LTab> tb; int kind; }; static std::vector<Pend> pend; static size_t pbytes;
static std::string repeat(const std::string &s, size_t n) { std::string r; while (n--) r += s; return r; }
static void exec(Pend &p) {
	for (auto &t : p.tb) H.states += t.t.size(); std::string al = lx_alphabet(p.tb), key, why; bool ok = true; auto ask = [&](const std::string &s) { if (!(why = lx_ask(p.g, p.tb, s, &key)).empty()) { H.fail(key, why); ok = false; } return ok; };
	lx_inputs(al, p.g.o.io == 0 && (p.g.o.getc == 0 || p.g.o.getc == 3) ? (T ? 20000 : 900) : (T ? 60000 : 4000), ask); if (!ok) return;
	if (p.kind) { std::vector<size_t> L{ 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 }, M = L; if (p.kind > 1) for (size_t x : { 127, 128, 129, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 20000 }) L.push_back(x); if (T && p.kind > 1) M = L;
		for (size_t i = 0; i < L.size() && ok; i++) for (const char *u : { "a", "a\n", "\n", " ", "ab" }) if (ok) { std::string s = repeat(u, L[i]); ok = ask(s); for (size_t j = 0; j < M.size() && ok; j += L[i] > 1000 ? 7 : 3) ok = ask(s + "b\nb" + repeat("a", M[j]) + "\n c" + repeat(u, 3) + "cz"); } }
	// names and examples
	static const char *rs[] = { "EOF", "ERROR", "UNKNOWN" }; int n = p.g.sp.tok.size();
	if (p.g.name) { std::map<std::string, int> seen; for (int i = 0; i < n + 3; i++) { const char *x = p.g.name(i); if (!x) x = "(null)"; seen[x]++; } for (auto &t : p.g.sp.tok) if (seen[lx_upper(t)] != 1) { H.fail("name", "no token is named " + lx_upper(t)); return; } for (auto r : rs) if (seen[r] != 1) { H.fail("name", std::string("no token is named ") + r); return; } if (!p.g.name(n + 3) || strcmp(p.g.name(n + 3), "?")) H.fail("name", "a token which isn't one"); }
	if (p.g.example && p.g.name) for (int i = 0; i < n; i++) { const char *x = p.g.example(i), *nm = p.g.name(i); int tok = -1; for (int k = 0; k < n; k++) if (lx_upper(p.g.sp.tok[k]) == nm) tok = k; bool have = false; size_t sh = 0; auto &tb = p.tb[0]; // shortest text of this token in the outermost zone
		std::vector<int> dist(tb.t.size(), -1), q{0}; dist[0] = 0; for (size_t j = 0; j < q.size(); j++) { int s = q[j]; if (!have && tb.acc[s] >= 0 && p.g.sp.z[0].m[tb.acc[s]].tok == tok) { have = true; sh = dist[s]; } for (int y : tb.t[s]) if (tb.live[y] && dist[y] < 0) { dist[y] = dist[s] + 1; q.push_back(y); } }
		if (!have) { if (x) { H.fail("example", fmt("%s can't be had here, but its example is ", nm) + show(x)); return; } continue; }
		if (!x) { H.fail("example", std::string("no example of ") + nm); return; } std::string s = x; if (sh >= 49) { if (s.size() != 52 || s.substr(49) != "...") { H.fail("example", std::string("long example of ") + nm + " is " + show(s)); return; } continue; }
		for (size_t e; (e = s.find("\\x")) != std::string::npos; ) s.replace(e, 4, 1, (char) strtol(s.substr(e + 2, 2).c_str(), nullptr, 16)); // as it is shown
		int st = 0; for (unsigned char c : s) st = tb.t[st][lxsym(c)]; int a = tb.acc[st]; if (s.size() != sh || a < 0 || p.g.sp.z[0].m[a].tok != tok) { H.fail("example", std::string("example of ") + nm + " is " + show(s)); return; } }
}
static void at(Pend &p, const std::function<void()> &f) { int64_t oi = H.idx; auto oc = H.cur; H.idx = p.idx; H.sh->idx = p.idx; std::string t = p.name; H.cur = [=] { return t; }; f(); H.idx = oi; H.cur = oc; H.sh->idx = oi; }
static void flush() {
	if (pend.empty()) return; std::string err; std::vector<LGen *> gs; for (auto &p : pend) gs.push_back(&p.g); void *h = lx_compile(gs, &err);
	if (h) { for (auto &p : pend) at(p, [&] { exec(p); }); dlclose(h); } else for (auto &p : pend) at(p, [&] { std::string e; void *h = lx_compile({ &p.g }, &e); if (h) { exec(p); dlclose(h); } else H.fail("compile", e.substr(0, 600)); });
	pend.clear(); pbytes = 0;
}
static void run(const LSpec &sp, const LxOpt &o, const std::string &name, int kind) {
	static const char *io[] = { "getc", "str", "pair" }, *gc[] = { "fgetc", "sgetc", "agetc", "fdgetc" }, *bu[] = { "dyn", "fixed", "none", "both, dyn used", "both, fixed used", "dyn, not used", "default" };
	std::string t = name + ": " + io[o.io] + (o.io ? "" : std::string(" ") + gc[o.getc]) + ", buffer " + bu[o.buf] + (o.pos ? "" : ", no positions") + (o.name ? "" : ", no names") + (o.example ? "" : ", no examples") + (o.low ? fmt(", buffers of %d", o.low) : ""); for (auto &a : o.args) t += " " + a;
	if (!H.begin([=] { return t; })) return; Pend p; p.idx = H.idx; p.name = t; p.kind = kind; for (auto &z : sp.z) p.tb.push_back(lx_table(z)); for (auto &x : p.tb) if (x.conflict || x.empty_ok) { fprintf(stderr, "ambiguous: %s\n", name.c_str()); exit(3); } H.nontrivial++;
	p.g.sp = sp; p.g.o = o; std::string err; int r = lx_generate(p.g, fmt("%lld", (long long) H.idx), &err); if (r) { H.fail("crash", fmt("lx: %s%d ", r >= 256 ? "signal " : "exits ", r & 255) + err.substr(0, 300)); return; } pbytes += p.g.src.size(); pend.push_back(p); if (pbytes > 150000 || H.only >= 0) flush();
}
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough; LXP = H.arg["lx"]; char tn[] = "lx-XXXXXX"; if (!mkdtemp(tn)) return 2; lxdir = tn; setenv("TMPDIR", tn, 1); lx_guard(); std::string all(LXS, LXR);
	auto W = [](const std::string &w) { std::string t = "\""; for (unsigned char c : w) t += c == '\n' ? std::string("\\n") : c >= 128 ? fmt("\\x%02x", c) : std::string(1, c); return LX{ t + "\"", lx_word(w), 7 }; }; LX any{ "/./", lx_chars(all), 7 }, ap{ "/a+/", lx_plus(lx_word("a")), 7 }, np{ "/\\n+/", lx_plus(lx_word("\n")), 7 }, mix{ "/[a\\n]+/", lx_plus(lx_chars("a\n")), 7 }, wsp{ "/[ \\n]+/", lx_plus(lx_chars(" \n")), 7 };
	std::vector<std::pair<std::string, LSpec>> sp; { LSpec s; s.rule(0, ap, "as"); s.rule(0, W("\n"), "nl"); s.rule(0, W("ab\nb"), "ab"); s.rule(0, W(" "), ""); sp.push_back({ "words and newlines", s }); }
	{ LSpec s; s.rule(0, mix, "m"); s.rule(0, W("b\n\nb"), "b"); s.rule(0, W("bc"), "bc"); sp.push_back({ "tokens over lines", s }); }
	{ LSpec s; s.rule(0, wsp, ""); s.rule(0, ap, "as"); s.rule(0, W("b"), "b"); sp.push_back({ "whitespace skipped", s }); }
	{ LSpec s; s.rule(0, ap, "as"); s.rule(0, W("\n"), ""); s.text += "'b' .. 'c';\n"; s.z.push_back(LZone{{}, 0}); s.z[0].m.push_back({ lx_word("b"), -1, 1, false }); s.z[1].m.push_back({ lx_word("c"), -1, 0, false }); s.z[1].m.push_back({ lx_sub(any.d, lx_word("c")), -1, -1, true }); sp.push_back({ "comments", s }); }
	{ LSpec s; s.z.push_back(LZone{{}, 0}); s.text += "'b' -> $o .. /c\\n?/ -> $e {\n"; LD e = lx_alt(lx_word("c"), lx_word("c\n")); s.z[0].m.push_back({ lx_word("b"), s.token("o"), 1, false }); s.z[1].m.push_back({ e, s.token("e"), 0, false }); s.rule(1, ap, "as", &e); s.rule(1, W("\n "), "nl", &e); s.rule(1, W(" "), "", &e); s.text += "}\n"; s.rule(0, ap, "as"); s.rule(0, wsp, ""); sp.push_back({ "zones with tokens", s }); }
	{ LSpec s; s.rule(0, LX{ "/[^\\n]/", lx_chars("abc zA\xff"), 7 }, "c"); s.rule(0, W("\n\n"), "n2"); s.rule(0, W("\n"), ""); s.rule(0, W("\xff\xff"), "ff"); sp.push_back({ "single characters", s }); }
	{ LSpec s; s.rule(0, W(std::string(48, 'a')), "t48"); s.rule(0, W(std::string(49, 'a')), "t49"); s.rule(0, W(std::string(50, 'a')), "t50"); s.rule(0, W(std::string(60, 'a')), "t60"); s.rule(0, W("b"), "q"); sp.push_back({ "long tokens", s }); }
	{ LSpec s; s.rule(0, LX{ "/[a\\n]/", lx_chars("a\n"), 7 }, ""); sp.push_back({ "nothing but skips", s }); }
	for (auto &s : sp) for (int io = 0; io < 6; io++) for (int buf = 0; buf < 7; buf++) for (int pos = 0; pos < 2; pos++) for (int v = 0; v < 6; v++) {
		if (H.stop()) break; if (!H.take()) continue; if (!T && v && (H.idx / 6) % 5) continue; if (buf == 6 && io % 3) continue;
		LxOpt o{ {}, io < 4 ? 0 : io - 3, io < 4 ? io : 0, buf, pos == 1, v != 1, v != 2 && v != 1 }; if (v == 3) o.args = { "-x", "comments" }; if (v == 4) o.args = { "-X" }; if (v == 5) o.args = { "-C", "2" }; o.low = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 8 : 0; if (buf == 6) { if (v) continue; }
		run(s.second, o, s.first, v > 2 ? 0 : v || buf > 1 ? 1 : T || io == 0 || io == 4 ? 2 : 1); }
	flush(); rmdir(lxdir.c_str()); return H.finish();
}
