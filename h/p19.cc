// P19: under the error mode, printing fails with a conflict just when an end state carries several ids, and says which
#include "gen.h"
#include "conf.h"
#include "ids.h"
#include "fault.h"
#include <errno.h>
extern "C" {
#include <fsm/print.h>
#include <fsm/options.h>
}
static bool T;
struct Call { Ids ids; bool ex; std::string example; }; struct Log { std::vector<Call> c; int stop; bool bad; };
static int hk_conflict(FILE *, const struct fsm_options *, const struct fsm_state_metadata *m, const char *example, void *o) { Log *l = (Log *) o; Call c; for (size_t i = 0; i < m->end_id_count; i++) if (!c.ids.insert(m->end_ids[i]).second) l->bad = true; c.ex = example != nullptr; if (example) c.example = example; l->c.push_back(c); H.tick(); return l->stop >= 0 && (int) l->c.size() > l->stop ? -1 : 0; }
static const int langs[] = { FSM_PRINT_NONE, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM, FSM_PRINT_API, FSM_PRINT_AWK, FSM_PRINT_C, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_GO, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_JSON, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_VMC, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_VMOPS_MAIN };
static bool vm(int l) { return l != FSM_PRINT_NONE && l != FSM_PRINT_API && l != FSM_PRINT_DOT && l != FSM_PRINT_FSM && l != FSM_PRINT_JSON; }
// can this example, as given or with its escapes read, lead to an end state with just these ids?
static bool leads(const Nfa &a, const std::string &s, const Ids &ids) { if (a.start < 0) return false; std::set<int> q = { a.start }; auto close = [&] { std::vector<int> w(q.begin(), q.end()); while (!w.empty()) { int u = w.back(); w.pop_back(); for (int v : a.s[u].eps) if (q.insert(v).second) w.push_back(v); } }; close(); std::vector<std::set<int>> at(s.size() + 1); at[0] = q; for (size_t i = 0; i < s.size(); i++) { auto step = [&](unsigned char c, size_t to) { q.clear(); for (int u : at[i]) for (auto &e : a.s[u].e) if (e.first[c]) q.insert(e.second); close(); at[to].insert(q.begin(), q.end()); }; step(s[i], i + 1); if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x' && isxdigit((unsigned char) s[i + 2]) && isxdigit((unsigned char) s[i + 3])) step(strtol(s.substr(i + 2, 2).c_str(), nullptr, 16), i + 4); } q = at[s.size()]; for (auto x : q) if (a.s[x].end && a.s[x].ids == ids) return true; return false; }
static void run(Nfa a, const std::string &name) {
	for (auto &s : a.s) { s.eager.clear(); if (!s.end) s.ids.clear(); } Nfa shown = a; auto d = [=] { return name.empty() ? shown.str() : name; }; if (!H.begin(d)) return;
	// states reachable along any edges
	std::vector<bool> seen(a.n()); std::vector<int> q; if (a.start >= 0) { q.push_back(a.start); seen[a.start] = true; } while (!q.empty()) { int u = q.back(); q.pop_back(); H.states++; auto go = [&](int v) { H.transitions++; if (!seen[v]) { seen[v] = true; q.push_back(v); } }; for (auto &e : a.s[u].e) if (e.first.any()) go(e.second); for (int v : a.s[u].eps) go(v); }
	std::multiset<Ids> must, may; bool some = false; for (size_t i = 0; i < a.n(); i++) if (a.s[i].end && a.s[i].ids.size() > 1) { some = true; may.insert(a.s[i].ids); if (seen[i]) must.insert(a.s[i].ids); } if (!must.empty()) H.nontrivial++;
	bool hase = false; for (auto &s : a.s) if (!s.eps.empty()) hase = true; bool allids = true; for (auto &s : a.s) if (s.end && s.ids.empty()) allids = false; bool dfa = a.start >= 0 && is_dfa_shape(a); FaultAlloc A; struct fsm *f = build(a, &A.a); std::string before = extract(f).str(); int k = 0;
	for (int l : langs) for (int hook = 0; hook < 2; hook++) { k++; if (some == false && !allids) continue; static const struct fsm_options zero = {}; static const struct fsm_hooks hz = {}; struct fsm_options o = zero; o.ambig = AMBIG_ERROR; bool asml = l == FSM_PRINT_AMD64_ATT || l == FSM_PRINT_AMD64_GO || l == FSM_PRINT_AMD64_NASM; o.io = asml ? FSM_IO_PAIR : FSM_IO_STR; o.comments = (H.idx + k) % 2; o.consolidate_edges = (H.idx + k) % 3 == 0; struct fsm_hooks h = hz; Log g = { {}, -1, false }; h.conflict = hk_conflict; h.hook_opaque = &g; H.traces++; size_t live = A.live.size();
		char *p = nullptr; size_t n = 0; FILE *m = open_memstream(&p, &n); errno = 0; int r = fsm_print(l == FSM_PRINT_NONE ? nullptr : m, f, &o, hook ? &h : nullptr, (enum fsm_print_lang) l); int e = errno; fclose(m); free(p); std::string L = fmt("language %d%s: ", l, hook ? ", hook" : "");
		if (A.live.size() != live) { H.fail("leak", L + fmt("%zu blocks before, %zu after", live, A.live.size())); break; }
		if (!must.empty() && r != 1) { H.fail("missed", L + fmt("fsm_print returned %d, errno %d, where a state carries several ids", r, e)); break; }
		if (!some && r == 1) { H.fail("alarm", L + "a conflict, where no end state carries several ids"); break; }
		if (!some && r != 0 && !(asml && r == -1 && e == ENOTSUP) && !(vm(l) && !dfa && r == -1 && e == EINVAL) && !(l == FSM_PRINT_API && r == -1)) { H.fail("print", L + fmt("fsm_print returned %d, errno %d", r, e)); break; }
		if (!hook) continue; if (g.bad) { H.fail("ids", L + "the hook was given an id twice"); break; } std::multiset<Ids> got; bool bad = false;
		for (auto &c : g.c) { got.insert(c.ids); if (may.count(c.ids) < got.count(c.ids)) { H.fail("ids", L + "a conflict between ids which no end state carries (as often)"); bad = true; break; } if (!c.ex) { if (!hase && must.count(c.ids) && may.count(c.ids) == must.count(c.ids)) { H.fail("example", L + "no example of a reachable conflict"); bad = true; break; } continue; }
			if (!leads(a, c.example, c.ids)) { H.fail("example", L + "the example " + show(c.example) + " does not reach a state with these ids"); bad = true; break; } }
		if (bad) break; for (auto &s : must) if (got.count(s) < must.count(s)) { H.fail("hook", L + "a conflict was not reported"); bad = true; break; } if (bad) break; }
	// a hook which fails stops the printing
	if (!must.empty()) { struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_ERROR; for (int st = 0; st < (int) must.size() && st < 4; st++) { struct fsm_hooks h; memset(&h, 0, sizeof h); Log g = { {}, st, false }; h.conflict = hk_conflict; h.hook_opaque = &g; size_t live = A.live.size(); int r = fsm_print(nullptr, f, &o, &h, FSM_PRINT_NONE); if (r != -1 || (int) g.c.size() != st + 1) { H.fail("hook-fails", fmt("the hook failed at its call %d: fsm_print returned %d after %zu calls", st, r, g.c.size())); break; } if (A.live.size() != live) { H.fail("leak", "when the hook fails"); break; } } }
	// the other modes never conflict
	if (allids) for (int amb : { AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE }) for (int l : langs) { bool asml = l == FSM_PRINT_AMD64_ATT || l == FSM_PRINT_AMD64_GO || l == FSM_PRINT_AMD64_NASM; if (asml && amb != AMBIG_NONE) continue; if (vm(l) && !dfa) continue; if (l == FSM_PRINT_API) continue; struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = (enum fsm_ambig) amb; o.io = asml ? FSM_IO_PAIR : FSM_IO_STR; struct fsm_hooks h; memset(&h, 0, sizeof h); Log g = { {}, -1, false }; h.conflict = hk_conflict; h.hook_opaque = &g; char *p = nullptr; size_t n = 0; FILE *m = open_memstream(&p, &n); errno = 0; int r = fsm_print(m, f, &o, &h, (enum fsm_print_lang) l); int e = errno; fclose(m); free(p); H.traces++; if (r != 0 || !g.c.empty()) { H.fail("modes", fmt("language %d, mode %d: fsm_print returned %d, errno %d, %zu conflicts", l, amb, r, e, g.c.size())); break; } }
	if (extract(f).str() != before) H.fail("changed", "printing changed the machine"); fsm_free(f); if (A.live.size()) H.fail("leak", "at the end"); A.reset();
}
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough;
	auto each = [&](const Nfa &a) { Nfa b = a; assign_ids(b, 1 + H.idx % 6); run(b, ""); };
	enum_dfas(1, 2, each); enum_dfas(2, 2, each); enum_dfas(3, 2, [&](const Nfa &a) { if (!T && H.idx % 7) return; each(a); }, !T);
	enum_nfas(1, 2, 2, true, each); enum_nfas(2, T ? 3 : 2, 2, true, each); enum_nfas(3, 2, 1, true, [&](const Nfa &a) { if (!T && H.idx % 11) return; each(a); });
	enum_ids([&](const Nfa &a, const std::string &n) { run(a, n); }, 1);
	enum_families([&](const Nfa &a0, const std::string &n) { Nfa a = a0; assign_ids(a, 1 + H.idx % 6); run(a, n); }, T ? 130 : 34, false, 1);
	// every byte and pair of bytes on the way to the conflict
	for (int c = 0; c < 256; c++) for (int k = 0; k < (T ? 256 : 5); k++) { if (H.stop()) break; if (!H.take()) continue; int d = T ? k : (int[]) { 0, 'x', '\\', '0', 255 }[k]; Nfa a; a.add(false); a.add(true); a.s[1].ids = { 1, 2 }; a.add(true); a.s[2].ids = { 3, 4 }; a.start = 0; a.set(0, 1, B1(c)); a.set(1, 2, B1(d)); run(a, fmt("bytes %d %d", c, d)); }
	return H.finish();
}
