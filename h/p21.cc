// P21: anchors mean start and end of the subject.
#include "rx.h"
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite;
	Bytes A; A.set('a'); Bytes NL; NL.set('\n'); Bytes any; any.set();
	RxEnum E;
	E.atoms = { rx_anch(A_START, "^"), rx_anch(A_ENDNL, "$"), rx_set(A, "a"), rx_empty(), rx_anch(A_END, "\\z") }; if (H.arg.count("nl")) E.atoms.push_back(rx_set(NL, "\n"));
	E.reps = { {0, -1}, {0, 1}, {1, -1}, {2, 2} };
	if (H.arg.count("opt")) E.reps = { {0, 1} };
	int N = H.arg.count("n") ? atoi(H.arg["n"].c_str()) : 5; if (!T && H.arg.count("tn")) return H.finish();
	const int modes[] = { 0, RE_ANCHORED, RE_END_NL, RE_END_NL | RE_ANCHORED }; // the dialect sets RE_END_NL itself, so the last two are only repeated for the smaller patterns
	for (int n = 1; n <= N; n++) E.each(n, [&](const R &r) {
		for (int mi = 0; mi < (n <= 4 ? 4 : 2); mi++) { int fl = modes[mi];
			if (H.stop()) return false;
			if (!H.take()) continue;
			Speller sp; std::string t = rx_text(r, sp);
			if (!H.begin([&] { return "pcre flags " + std::to_string(fl) + " " + show(t); })) return false;
			if (H.arg.count("dump")) { RxOpt o; Nfa w = rx_nfa(r, o); if (fl) continue; std::string o2; std::string tt; for (char ch : t) tt += ch == '\n' ? std::string("\\n") : std::string(1, ch); printf("%s\t", tt.c_str()); all_strings({'a', 'b', '\n'}, 3, [&](const std::string &s) { putchar(ref_accepts(w, s) ? '1' : '0'); return true; }); printf("\n"); continue; }
			Comp c = rx_comp(RE_PCRE, t, fl);
			if (!c.f) { H.counters[c.e.e == RE_EUNSUPPORTED ? "unsupported" : "other-error"]++; if (c.e.e != RE_EUNSUPPORTED) H.fail("refused", fmt("error %s", re_strerror(c.e.e))); continue; }
			RxOpt o; o.anchored_start = o.anchored_end = fl & RE_ANCHORED; o.end_nl = !(fl & RE_ANCHORED);
			Nfa want = rx_nfa(r, o), g = extract(c.f);
			H.nontrivial++;
			Diff d = compare(want, g, CMP_END, 20000);
			if (d.differ) H.fail("language", d.why);
			fsm_free(c.f);
		}
		return true; });
	return H.finish();
}
