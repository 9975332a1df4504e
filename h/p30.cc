// P30: conversion of an FSM to a regex preserves the language.
#include "gen.h"
#include "astread.h"
extern "C" {
#include "libre/ast_new_from_fsm.h"
}
// how long the expression gets when states go in numerical order
static double cost(const Nfa &a) {
	int n = a.n(); std::vector<std::vector<double>> L(n + 1, std::vector<double>(n + 1, 0)); double tot = 0;
	for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { Bytes b; for (auto &t : a.s[i].e) if (t.second == j) b |= t.first; L[i][j] = b.count(); for (int e : a.s[i].eps) if (e == j) L[i][j]++; } if (a.s[i].end) L[i][n] = 1; }
	for (int k = 0; k < n; k++) { if (k == a.start) continue; for (int i = 0; i <= n; i++) if (i != k && L[i][k]) for (int j = 0; j <= n; j++) if (j != k && L[k][j]) { L[i][j] += 1 + L[i][k] + L[k][k] + L[k][j]; tot += L[i][j]; } for (int i = 0; i <= n; i++) L[i][k] = L[k][i] = 0; }
	return tot;
}
static void one(const Nfa &a, const std::string &name, double cap) {
	if (cost(a) > cap) { H.counters["too_long"]++; return; }
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return;
	struct fsm *f = build(a);
	struct ast *t = ast_new_from_fsm(f);
	if (!t) { H.fail("convert", "NULL"); fsm_free(f); return; }
	Diff u = compare(a, extract(f), CMP_END, 4000); if (u.differ) H.fail("argument", "the machine was changed: " + u.why);
	fsm_free(f); // the tree must not refer to it
	if (!ref_empty(a)) H.nontrivial++;
	struct fsm_options o; memset(&o, 0, sizeof o); o.always_hex = H.idx % 3 == 1;
	int fl = H.idx % 5 == 1 ? RE_SINGLE : 0;
	std::string p = print(t, o, fl, AST_PRINT_PCRE), ab = print(t, o, fl, AST_PRINT_ABNF);
	if (H.idx % 7 == 2) { print(t, o, fl, AST_PRINT_TREE); print(t, o, fl, AST_PRINT_DOT); }
	ast_free(t);
	p.pop_back();
	auto cut = [](const std::string &s) { return s.size() > 300 ? show(s.substr(0, 300)) + "..." : show(s); };
	RxOpt x; x.anchored_start = x.anchored_end = true; x.end_nl = false;
	PcreReader pr(p, false); R r = pr.read(fl ? F_S : 0);
	if (!pr.ok) H.fail("pcre syntax", cut(p) + ": " + pr.why);
	else { Nfa g = rx_nfa(r, x); if (g.n() < 20000) { Diff d = compare(a, g, CMP_END, 4000); if (d.differ) H.fail("pcre", cut(p) + ": " + d.why); } else H.counters["too_long"]++; }
	AbnfReader ar(ab); r = ar.read();
	if (!ar.ok) H.fail("abnf syntax", cut(ab) + ": " + ar.why);
	else { Nfa g = rx_nfa(r, x); if (g.n() < 20000) { Diff d = compare(a, g, CMP_END, 4000); if (d.differ) H.fail("abnf", cut(ab) + ": " + d.why); } }
	// and back to a machine
	if (p.size() < 2000 && H.idx % 3 == 0) {
		Comp c = rx_comp(RE_PCRE, p, fl | RE_ANCHORED);
		if (!c.f) { if (c.e.e == RE_EUNSUPPORTED) H.counters["unsupported"]++; else H.fail("compile", cut(p) + ": " + re_strerror(c.e.e)); }
		else { Diff d = compare(a, extract(c.f), CMP_END, 4000); if (d.differ) H.fail("compile", cut(p) + ": " + d.why); fsm_free(c.f); }
	}
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite, ok = true;
	auto nfas = [&](int n, int k, int nsym, bool eps, int stride) { if (!ok) return; 
		enum_nfas(n, k, nsym, eps, [&](Nfa &a0) { if (H.idx % stride) return; Nfa a = a0; if (H.idx % 9 == 4) permute(a, 1 + H.idx % 3); one(a, "", lite ? 2e3 : T ? 1e5 : 2e4); }); };
	{ Nfa e; if (H.take()) one(e, "no states", lite ? 2e3 : T ? 1e5 : 2e4); e.add(true); if (H.take()) one(e, "no start", lite ? 2e3 : T ? 1e5 : 2e4); }
	nfas(1, 3, 2, true, 1); nfas(2, T ? 12 : lite ? 2 : 6, 2, true, 1); nfas(3, T ? 5 : lite ? 2 : 4, 2, true, T || lite ? 1 : 3); nfas(4, T ? 4 : 3, 2, true, T ? 3 : lite ? 997 : 5); nfas(4, T ? 7 : 5, 1, false, T ? 1 : lite ? 197 : 3); nfas(5, T ? 6 : 5, 1, false, T ? 5 : lite ? 4999 : 49);
	enum_dfas(3, 2, [&](Nfa &a) { if (lite && H.idx % 17) return; one(a, "", lite ? 2e3 : T ? 1e5 : 2e4); });
	enum_families([&](const Nfa &a, const std::string &nm) { one(a, nm, lite ? 1e3 : T ? 1e5 : 2e4); }, lite ? 20 : 200, T);
	// every byte and range as a label
	for (int lo = 0; ok && lo < 256; lo++) for (int hi : { lo, lo + 1, 255 }) for (int k = 0; k < 3; k++) {
		if (H.stop()) { ok = false; break; } if (hi > 255 || !H.take()) continue;
		Nfa a; a.add(k == 2); a.add(true); a.start = 0; a.set(0, k == 1 ? 0 : 1, BR(lo, hi)); a.set(1, 1, B1(lo)); if (k == 1) a.eps(0, 1); one(a, fmt("label %d-%d shape %d", lo, hi, k), lite ? 2e3 : T ? 1e5 : 2e4);
	}
	return H.finish();
}
