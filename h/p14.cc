// P14: the .fsm format: printing then parsing gives the same machine; every text over the format's tokens and bytes is
// either parsed to the machine it describes or refused cleanly (a message and exit status 1).
// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup
#include "gen.h"
#include <setjmp.h>
#include <unistd.h>
extern "C" {
#include <fsm/parser.h>
#include <fsm/print.h>
#include <fsm/options.h>
}
// ---- exit() inside the parser comes back here, and what it had allocated is freed
static jmp_buf jb; static volatile int active; static int exit_code; static std::vector<void *> *live; static std::map<void *, size_t> *where;
static void *note(void *p) { if (active && p) { (*where)[p] = live->size(); live->push_back(p); } return p; }
static void forget(void *p) { if (!active || !p) return; auto it = where->find(p); if (it != where->end()) { (*live)[it->second] = nullptr; where->erase(it); } }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return note(__real_malloc(n)); } void *__wrap_calloc(size_t a, size_t b) { return note(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { forget(p); return note(__real_realloc(p, n)); } void __wrap_free(void *p) { forget(p); __real_free(p); } char *__wrap_strdup(const char *s) { return (char *) note(__real_strdup(s)); }
void exit(int c) { if (active) { exit_code = c; longjmp(jb, 1); } fflush(nullptr); _exit(c); }
}
// returns 1 parsed, 0 refused, -1 returned NULL
static int parse(const std::string &doc, struct fsm **out) {
	static char z[1]; FILE *f = doc.empty() ? fmemopen(z, 1, "r") : fmemopen((void *) doc.data(), doc.size(), "r"); if (doc.empty()) fgetc(f); setvbuf(f, nullptr, _IOFBF, 4096);
	live->clear(); where->clear(); exit_code = -1; *out = nullptr; int r;
	if (!setjmp(jb)) { active = 1; struct fsm *x = fsm_parse(f, nullptr); active = 0; *out = x; r = x ? 1 : -1; }
	else { active = 0; for (void *p : *live) if (p) __real_free(p); r = 0; }
	fclose(f); return r;
}
#include "fsmtext.h"
typedef std::tuple<int, int, std::vector<std::tuple<bool, Ids, std::map<int, std::string>, std::set<int>>>> Canon;
static Canon canon(const Nfa &a) { std::vector<std::tuple<bool, Ids, std::map<int, std::string>, std::set<int>>> v; for (auto &s : a.s) { std::map<int, Bytes> m; for (auto &e : s.e) if (e.first.any()) m[e.second] |= e.first; std::map<int, std::string> t; for (auto &x : m) t[x.first] = x.second.to_string(); v.push_back({s.end, s.end ? s.ids : Ids(), t, std::set<int>(s.eps.begin(), s.eps.end())}); } return Canon((int) a.n(), a.start, v); }
static std::string brief(const std::string &d) { return show(d.size() > 300 ? d.substr(0, 300) : d); }
static bool viable;
static bool text(const std::string &d) {
	H.traces++; H.tick(); Doc w; fsm_read(d, w); viable = w.viable; struct fsm *f; int r = parse(d, &f); bool good = true; auto bad = [&](const char *k, const std::string &m) { H.fail(k, brief(d) + ": " + m); good = false; };
	if (r == 0 && exit_code != 1) bad("exit", fmt("exit status %d", exit_code)); if (r == 1) H.counters["accepted"]++;
	if (!w.odd) { if (r == 1 && !w.ok) bad("accepts", "parsed, though it isn't well formed"); else if (r != 1 && w.ok) bad("refuses", fmt("refused (%d)", r)); else if (r == 1) { Nfa g = extract(f); if (canon(g) != canon(w.a)) bad("machine", "got " + g.str() + ", want " + w.a.str()); } }
	if (f) fsm_free(f); return good;
}
static std::string print(const struct fsm *f, int o, bool *ok) {
	struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.comments = o & 1; opt.always_hex = o >> 1 & 1; opt.anonymous_states = o >> 2 & 1; opt.consolidate_edges = o >> 3 & 1; opt.case_ranges = o >> 3 & 1; opt.ambig = AMBIG_MULTIPLE; opt.io = FSM_IO_GETC;
	char *b = nullptr; size_t n = 0; FILE *m = open_memstream(&b, &n); int r = fsm_print(m, f, &opt, nullptr, FSM_PRINT_FSM); fclose(m); std::string s(b, n); free(b); *ok = r == 0; return s;
}
static bool few;
static void round(Nfa a, const std::string &name, int ids) {
	assign_ids(a, ids); for (auto &s : a.s) if (ids == 6) { Ids t; for (auto x : s.ids) { t.insert(x * 10 + 9); t.insert(x + 4294967290u); } if (s.end) s.ids = t; }
	if (!H.begin([&] { return (name.empty() ? a.str() : name) + fmt(", ids %d", ids); })) return; if (a.start >= 0) H.nontrivial++;
	struct fsm *f = build(a); Nfa src = extract(f);
	for (int o = few || (a.n() > 12 && !H.thorough) ? H.idx % 5 : 0; o < 16; o += few || (a.n() > 12 && !H.thorough) ? 5 : 1) { if (a.n() > 40 && (o & 1) && a.n() * a.n() > 20000) continue; bool ok; std::string d = print(f, o, &ok); H.states++; if (!ok) { H.fail("print", fmt("printing failed with options %d", o)); break; }
		struct fsm *g; int r = parse(d, &g); H.traces++; H.tick(); if (r != 1) { H.fail("round-parse", fmt("options %d: the printed text is refused: ", o) + brief(d)); break; }
		Nfa b = extract(g); fsm_free(g); Nfa want = src; if (want.start < 0) for (auto &s : want.s) { s.end = false; s.ids.clear(); }
		if (!(o & 4)) { if (canon(b) != canon(want)) { H.fail("round-machine", fmt("options %d: got ", o) + (a.n() < 8 ? b.str() : "a different machine")); break; } }
		else { Diff x = compare(want, b, CMP_END | CMP_IDS, 20000); if (x.differ) { H.fail("round-language", fmt("options %d, on ", o) + x.witness + ": " + x.why); break; } } }
	fsm_free(f);
}
int main(int argc, char **argv) {
	H.init(argc, argv); live = new std::vector<void *>; where = new std::map<void *, size_t>; bool lite = H.arg.count("lite"), T = H.thorough && !lite; freopen("/dev/null", "w", stderr);
	// every sequence of tokens
	std::vector<std::string> tk = { "a", "b", "1", "->", ";", ",", "\"x\"", "?", "start:", "end:", "=", "[", "]", "27", "'y'" };
	int depth = T ? 6 : lite ? 4 : 5;
	for (size_t i = 0; i < tk.size(); i++) for (size_t j = 0; j < tk.size(); j++) { if (H.stop()) break; if (!H.take()) continue; if (!H.begin([&] { return "token sequences beginning " + tk[i] + " " + tk[j]; })) continue; H.nontrivial++; if (i == 0 && j == 0) { text(""); for (auto &t : tk) text(t); }
		std::vector<int> q{(int) i, (int) j}; std::function<void()> rec = [&]() { if (H.nfails > 20) return; std::string d; for (int k : q) d += tk[k] + ((q.size() + k) % 3 == 0 ? "\n" : (q.size() + k) % 3 == 1 ? " " : " # c\n"); text(d); if ((int) q.size() < depth && (T || viable || (int) q.size() < 3)) for (size_t k = 0; k < tk.size(); k++) { q.push_back(k); rec(); q.pop_back(); } }; rec(); }
	// well-formed documents, and each with every token deleted, replaced or inserted
	std::vector<std::vector<std::string>> docs; { std::vector<std::vector<std::string>> items = { {}, {"a", ";"}, {"a", "->", "b", ";"}, {"a", "->", "b", "\"x\"", ";"}, {"b", "->", "a", "?", ";"}, {"a", "->", "a", "'y'", ";"} }, starts = { {}, {"start:", "a", ";"}, {"start:", "end", ";"} }, ends = { {}, {"end:", "b", ";"}, {"end:", "a", "=", "[", "]", ",", "b", ";"}, {"end:", "a", "=", "[", "10", "]", ";"}, {"end:", "b", "=", "[", "12", ",", "7", ",", "4294967295", "]", ",", "c", "=", "[", "0", "]", ";"} };
		for (auto &x : items) for (auto &y : items) for (auto &s : starts) for (auto &e : ends) { std::vector<std::string> d = x; d.insert(d.end(), y.begin(), y.end()); d.insert(d.end(), s.begin(), s.end()); d.insert(d.end(), e.begin(), e.end()); docs.push_back(d); } }
	for (auto &d : docs) { if (H.stop()) break; if (!H.take()) continue; auto join = [](const std::vector<std::string> &v, const char *sep) { std::string s; for (auto &t : v) s += t + sep; return s; }; if (!H.begin([&] { return "document " + join(d, " "); })) continue; H.nontrivial++;
		text(join(d, " ")); text(join(d, "\n")); text(join(d, "")); text(join(d, "#\n")); text(join(d, "\t# x ; ->\r\n")); text("# only\n" + join(d, " ") + "#");
		for (size_t i = 0; i <= d.size(); i++) { auto e = d; if (i < d.size()) { e.erase(e.begin() + i); text(join(e, " ")); } for (auto &t : tk) { if (i < d.size()) { e = d; e[i] = t; text(join(e, " ")); } e = d; e.insert(e.begin() + i, t); text(join(e, " ")); if (t == "a" || t == "27") text(join(e, "")); } } }
	// every string of bytes as a label, as a name, and as an id list
	std::vector<int> by = { '"', '\'', '\\', 'x', '0', '3', '7', '8', 'f', 'n', 'A', ' ', '\n', 0x80, 0, ';', '#', 'v' }; int ld = T ? 5 : lite ? 3 : 4;
	for (size_t i = 0; i < by.size(); i++) for (size_t j = 0; j < by.size(); j++) for (int k = 0; k < 3; k++) { if (H.stop()) break; if (!H.take()) continue; if (!H.begin([&] { return fmt("byte strings beginning %02x %02x, place %d", by[i], by[j], k); })) continue; H.nontrivial++;
		std::string s; s += (char) by[i]; s += (char) by[j]; std::function<void()> rec = [&]() { if (H.nfails > 20) return; if (k == 0) text("a -> b " + s + ";\nstart: a; end: b;"); else if (k == 1) text("a -> b \"" + s + "\";\nstart: a; end: b;"); else text("a -> b;start: a; end: b = [" + s + "];"); if ((int) s.size() < ld) for (int c : by) { s += (char) c; rec(); s.pop_back(); } }; rec(); }
	for (int c = 0; c < 256; c++) { if (!H.take() || !H.begin([&] { return fmt("byte %02x", c); })) continue; H.nontrivial++; std::string b(1, (char) c); text("a -> b \"" + b + "\";"); text("a -> b '" + b + "';"); text("a -> b \"\\" + b + "\";"); text(b); text("a" + b + " -> b;"); text("#" + b + "\na;"); text("end: a = [" + b + "];"); text(fmt("a -> b \"\\x%02x\";", c)); text(fmt("a -> b \"\\x%02X\";", c)); text(fmt("a -> b \"\\x%x\";", c)); text(fmt("a -> b \"\\%o\";", c)); text(fmt("a -> b \"\\%03o\";", c)); text(fmt("a -> b \"\\x%03x\";", c + 256)); text(fmt("a -> b \"\\%o\";", c + 256)); text(fmt("end: a = [%u];", c)); text(fmt("end: a = [%u, %u];", 4294967295u - c, c * 16777259u)); text(fmt("end: a = [%llu];", 4294967296ull + c)); text(fmt("end: a = [9999999999999999999%d];", c)); text("start: " + std::string(1 + c * 5, 'q') + ";"); }
	// many names, so that the table of names grows
	for (int n : { 60, 700, 1100, 1700, 2500, T ? 12000 : 5000 }) for (int v = 0; v < 3; v++) { if (lite && n > 1800) continue; if (!H.take() || !H.begin([&] { return fmt("%d names, kind %d", n, v); })) continue; H.nontrivial++; auto nm = [&](int i) { return v == 0 ? fmt("%d", i) : v == 1 ? fmt("s_%x", i * 7919) : fmt("%s%d", std::string(i % 9, 'z').c_str(), i); }; std::string d; for (int i = 0; i < n; i++) { d += nm(i) + " -> " + nm((i * 3 + 1) % n) + " \"" + (char) ('a' + i % 20) + "\";\n"; if (i % 5 == 0) d += nm(i / 2) + " -> " + nm(i) + ";"; } d += "start: " + nm(n / 2) + "; end: " + nm(n - 1) + " = [10], " + nm(n / 3) + ";"; text(d); }
	auto R = [&](const Nfa &a) { round(a, "", H.idx % 7); };
	enum_nfas(1, 3, 2, true, R); few = !T; enum_nfas(2, lite ? 2 : T ? 4 : 3, 2, true, R); if (!lite) { enum_nfas(3, T ? 3 : 2, 2, true, R); enum_nfas(2, 2, 2, true, [&](const Nfa &a) { Nfa b = a; b.start = -1; round(b, "", H.idx % 7); }); }
	few = lite; enum_families([&](const Nfa &a, const std::string &n) { round(a, n, H.idx % 7); }, T ? 300 : lite ? 40 : 100, false, 1);
	return H.finish();
}
