// The library's operations, each as something which can be run on given machines, and inputs for them.
// FA (its allocator, with members a, count, failat, after) is declared by who includes this.
#pragma once
#ifndef POINT
#define POINT() // something may happen during this callback
#endif
extern "C" {
#include <fsm/walk.h>
#include <fsm/pred.h>
#include <fsm/bool.h>
#include <fsm/print.h>
#include <fsm/options.h>
#include <fsm/subgraph.h>
#include <fsm/vm.h>
#include <fsm/cost.h>
#include <fsm/parser.h>
#include <fsm/capture.h>
#include <re/strings.h>
}
extern "C" struct fsm *fsm_mergeab(struct fsm *a, struct fsm *b, fsm_state_t *base_b);
extern "C" struct fsm *fsm_minimise_test_oracle(const struct fsm *fsm);
enum Kind { SAME, EDIT, QUERY, CONSUME, MAKE, MAKEQ };
// SAME: changes a machine, never its language. EDIT: changes one. QUERY: reads. CONSUME: takes its operands, gives a new machine.
// MAKE: gives a new machine from nothing or from operands it only reads.
struct Run { std::vector<struct fsm *> m; struct fsm *out = nullptr; std::string obs; };
struct Op { std::string name; Kind kind; int arity; std::function<bool(Run &)> run; bool dfa; };
static std::vector<Op> ops;
static void op(const char *n, Kind k, int arity, std::function<bool(Run &)> f, bool dfa = false) { ops.push_back({n, k, arity, f, dfa}); }
static bool mem, T;

static bool made(Run &r, struct fsm *f) { r.out = f; return f != nullptr; }
static enum fsm_generate_matches_cb_res gen_cb(const struct fsm *, size_t, size_t mc, size_t, const char *in, size_t n, fsm_state_t, void *o) { POINT(); *(std::string *) o += std::string(in, n) + ","; return mc > 20 ? FSM_GENERATE_MATCHES_CB_RES_HALT : FSM_GENERATE_MATCHES_CB_RES_CONTINUE; }
static int filter_odd(fsm_state_t s, void *o) { POINT(); return s == *(fsm_state_t *) o || s % 3 != 1; }
static int remap_ids(fsm_state_t, size_t n, fsm_end_id_t *ids, size_t *w, void *) { POINT(); size_t k = 0; for (size_t i = 0; i < n; i++) if (ids[i] % 5) ids[k++] = ids[i] / 2; *w = k; return 1; }
static bool printed(Run &r, enum fsm_print_lang lang, enum fsm_io io, bool frag, enum fsm_ambig am) {
	struct fsm_options o = {}; o.io = io; o.fragment = frag; o.ambig = am; o.consolidate_edges = 1; o.comments = 1; o.prefix = "x_"; o.package_prefix = "pkg"; o.case_ranges = 1;
	char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); int e = fsm_print(f, r.m[0], &o, nullptr, lang); fclose(f);
	r.obs = fmt("%d ", e) + (e == 0 ? std::string(b, z) : ""); free(b); return e >= 0;
}
static int op_getc(void *o) { POINT(); return mem_getc(o); }
static int pred_end(const struct fsm *f, fsm_state_t s) { POINT(); return fsm_isend(f, s); }
static void define() {
	op("fsm_new", MAKE, 0, [](Run &r) { return made(r, fsm_new(&FA.a)); });
	op("fsm_new_statealloc 1", MAKE, 0, [](Run &r) { return made(r, fsm_new_statealloc(&FA.a, 1)); });
	op("fsm_new_statealloc 200", MAKE, 0, [](Run &r) { return made(r, fsm_new_statealloc(&FA.a, 200)); });
	op("fsm_clone", MAKE, 1, [](Run &r) { return made(r, fsm_clone(r.m[0])); });
	op("fsm_addstate", EDIT, 1, [](Run &r) { for (int i = 0; i < 140; i++) { fsm_state_t s; if (!fsm_addstate(r.m[0], &s)) return false; } return true; });
	op("fsm_addstate_bulk", EDIT, 1, [](Run &r) { return !!fsm_addstate_bulk(r.m[0], 300); });
	op("fsm_addedge_epsilon", EDIT, 1, [](Run &r) { unsigned n = fsm_countstates(r.m[0]); return !!fsm_addedge_epsilon(r.m[0], 0, n - 1); });
	op("fsm_addedge_literal", EDIT, 1, [](Run &r) { unsigned n = fsm_countstates(r.m[0]); return !!fsm_addedge_literal(r.m[0], n - 1, n / 2, 'q'); });
	op("fsm_addedge_any", EDIT, 1, [](Run &r) { unsigned n = fsm_countstates(r.m[0]); return !!fsm_addedge_any(r.m[0], 0, n / 2); });
	op("fsm_endid_set", EDIT, 1, [](Run &r) { for (unsigned s = 0; s < fsm_countstates(r.m[0]); s++) if (fsm_isend(r.m[0], s)) return !!fsm_endid_set(r.m[0], s, 99); return true; });
	op("fsm_setendid", SAME, 1, [](Run &r) { return !!fsm_setendid(r.m[0], 99); });
	op("fsm_eager_output_set", EDIT, 1, [](Run &r) { return !!fsm_eager_output_set(r.m[0], 0, 99); });
	op("fsm_eager_output_set_on_ends", SAME, 1, [](Run &r) { return !!fsm_eager_output_set_on_ends(r.m[0], 99); });
	op("fsm_mapendids", SAME, 1, [](Run &r) { return fsm_mapendids(r.m[0], remap_ids, nullptr) >= 0; });
	op("fsm_increndids", SAME, 1, [](Run &r) { fsm_increndids(r.m[0], 3); return true; });
	op("fsm_removestate", EDIT, 1, [](Run &r) { unsigned n = fsm_countstates(r.m[0]); fsm_state_t st = 0; fsm_getstart(r.m[0], &st); return !!fsm_removestate(r.m[0], st == n / 2 ? n - 1 : n / 2); });
	op("fsm_compact_states", EDIT, 1, [](Run &r) { fsm_state_t st = 0; fsm_getstart(r.m[0], &st); size_t k; return !!fsm_compact_states(r.m[0], filter_odd, &st, &k); });
	op("fsm_mergestates", EDIT, 1, [](Run &r) { unsigned n = fsm_countstates(r.m[0]); fsm_state_t q; if (n < 2) return true; return !!fsm_mergestates(r.m[0], 0, n - 1, &q); });
	op("fsm_collate", EDIT, 1, [](Run &r) { fsm_state_t q; return !!fsm_collate(r.m[0], &q, pred_end); });
	op("fsm_subgraph_duplicate", EDIT, 1, [](Run &r) { struct fsm_subgraph g; g.start = 0; g.end = fsm_countstates(r.m[0]); fsm_state_t x = 0, q; return !!fsm_subgraph_duplicate(r.m[0], &g, &x, &q); });
	op("fsm_shuffle", SAME, 1, [](Run &r) { return !!fsm_shuffle(r.m[0], 7); });
	op("fsm_vacuum", SAME, 1, [](Run &r) { return !!fsm_vacuum(r.m[0]); });
	op("fsm_trim both", SAME, 1, [](Run &r) { return fsm_trim(r.m[0], FSM_TRIM_START_AND_END_REACHABLE, nullptr) >= 0; });
	op("fsm_trim start", SAME, 1, [](Run &r) { return fsm_trim(r.m[0], FSM_TRIM_START_REACHABLE, nullptr) >= 0; });
	op("fsm_remove_epsilons", SAME, 1, [](Run &r) { return !!fsm_remove_epsilons(r.m[0]); });
	op("fsm_determinise", SAME, 1, [](Run &r) { return !!fsm_determinise(r.m[0]); });
	op("fsm_determinise_with_config", SAME, 1, [](Run &r) { struct fsm_determinise_config c = {3}; auto x = fsm_determinise_with_config(r.m[0], &c); r.obs = fmt("%d", x); return x != FSM_DETERMINISE_WITH_CONFIG_ERRNO; });
	op("fsm_minimise", SAME, 1, [](Run &r) { return !!fsm_minimise(r.m[0]); }, true);
	op("fsm_complete", SAME, 1, [](Run &r) { return !!fsm_complete(r.m[0], fsm_isany); });
	op("fsm_complement", EDIT, 1, [](Run &r) { return !!fsm_complement(r.m[0]); });
	op("fsm_reverse", EDIT, 1, [](Run &r) { return !!fsm_reverse(r.m[0]); });
	op("fsm_union", CONSUME, 2, [](Run &r) { return made(r, fsm_union(r.m[0], r.m[1], nullptr)); });
	op("fsm_concat", CONSUME, 2, [](Run &r) { struct fsm_combine_info ci; return made(r, fsm_concat(r.m[0], r.m[1], &ci)); });
	op("fsm_merge", CONSUME, 2, [](Run &r) { struct fsm_combine_info ci; return made(r, fsm_merge(r.m[0], r.m[1], &ci)); });
	op("fsm_mergeab", CONSUME, 2, [](Run &r) { fsm_state_t b; return made(r, fsm_mergeab(r.m[0], r.m[1], &b)); });
	op("fsm_intersect", CONSUME, 2, [](Run &r) { return made(r, fsm_intersect(r.m[0], r.m[1])); });
	op("fsm_subtract", CONSUME, 2, [](Run &r) { return made(r, fsm_subtract(r.m[0], r.m[1])); });
	op("fsm_intersect_charset", CONSUME, 1, [](Run &r) { return made(r, fsm_intersect_charset(r.m[0], 4, "abcq")); }, true);
	op("fsm_union_array", CONSUME, 3, [](Run &r) { struct fsm_combined_base_pair b[3]; return made(r, fsm_union_array(3, r.m.data(), b)); });
	op("fsm_equal", QUERY, 2, [](Run &r) { int x = fsm_equal(r.m[0], r.m[1]); r.obs = fmt("%d", x); return x >= 0; });
	op("fsm_empty", QUERY, 1, [](Run &r) { int x = fsm_empty(r.m[0]); r.obs = fmt("%d", x); return x >= 0; });
	op("fsm_reachableany", QUERY, 1, [](Run &r) { int x = fsm_reachableany(r.m[0], 0, pred_end); r.obs = fmt("%d", x); return x >= 0; });
	op("fsm_reachableall", QUERY, 1, [](Run &r) { int x = fsm_reachableall(r.m[0], 0, pred_end); r.obs = fmt("%d", x); return x >= 0; });
	op("fsm_hasnondeterminism", QUERY, 1, [](Run &r) { int ok = 1; for (unsigned s = 0; s < fsm_countstates(r.m[0]); s++) { int x = fsm_hasnondeterminism(r.m[0], s); if (x < 0) ok = 0; r.obs += fmt("%d", x); } return !!ok; });
	op("fsm_example", QUERY, 1, [](Run &r) { char b[600]; bool ok = true; for (unsigned s = 0; s < fsm_countstates(r.m[0]); s += 1 + fsm_countstates(r.m[0]) / 4) { int x = fsm_example(r.m[0], s, b, sizeof b); if (x < 0) ok = false; else r.obs += fmt("%d:%s;", x, b); } return ok; }, true);
	op("fsm_shortest", QUERY, 1, [](Run &r) { fsm_state_t st = 0; fsm_getstart(r.m[0], &st); struct path *p = fsm_shortest(r.m[0], st, fsm_countstates(r.m[0]) - 1, fsm_cost_legible); r.obs = p ? "path" : "none"; extern void pfree(struct path *); pfree(p); return p != nullptr; }, true);
	op("fsm_exec", QUERY, 1, [](Run &r) { fsm_state_t e = 0; MemIn in = {}; static const char t[] = "abcaabbcab"; in.p = t; in.n = 10; int x = fsm_exec(r.m[0], op_getc, &in, &e, nullptr); r.obs = fmt("%d", x); return x >= 0; }, true);
	op("fsm_generate_matches", QUERY, 1, [](Run &r) { int x = fsm_generate_matches(r.m[0], 6, 0, gen_cb, &r.obs); return x > 0; }, true);
	op("fsm_detect_required_characters", QUERY, 1, [](Run &r) { uint64_t m[4] = {}; size_t c = 0; auto x = fsm_detect_required_characters(r.m[0], 5000, m, &c); r.obs = fmt("%d %zu", x, c); return (int) x >= 0; }, true);
	op("fsm_vm_compile", QUERY, 1, [](Run &r) { struct fsm_dfavm *v = fsm_vm_compile(r.m[0]); if (!v) return false; r.obs = fmt("%d", fsm_vm_match_buffer(v, "abcab", 5)); fsm_vm_free(v); return true; }, true);
	op("fsm_minimise_test_oracle", MAKE, 1, [](Run &r) { return made(r, fsm_minimise_test_oracle(r.m[0])); }, true);
	struct L { const char *n; enum fsm_print_lang l; enum fsm_io io; bool dfa; };
	for (const L &l : std::vector<L>{{"fsm", FSM_PRINT_FSM, FSM_IO_GETC, false}, {"dot", FSM_PRINT_DOT, FSM_IO_GETC, false}, {"json", FSM_PRINT_JSON, FSM_IO_GETC, false}, {"api", FSM_PRINT_API, FSM_IO_GETC, false}, {"ir", FSM_PRINT_IR, FSM_IO_GETC, true}, {"irjson", FSM_PRINT_IRJSON, FSM_IO_GETC, true},
		{"c", FSM_PRINT_C, FSM_IO_GETC, true}, {"c pair", FSM_PRINT_C, FSM_IO_PAIR, true}, {"vmc", FSM_PRINT_VMC, FSM_IO_PAIR, true}, {"go", FSM_PRINT_GO, FSM_IO_STR, true}, {"rust", FSM_PRINT_RUST, FSM_IO_STR, true}, {"llvm", FSM_PRINT_LLVM, FSM_IO_PAIR, true}, {"sh", FSM_PRINT_SH, FSM_IO_STR, true}, {"awk", FSM_PRINT_AWK, FSM_IO_STR, true},
		{"amd64 att", FSM_PRINT_AMD64_ATT, FSM_IO_PAIR, true}, {"amd64 nasm", FSM_PRINT_AMD64_NASM, FSM_IO_PAIR, true}, {"amd64 go", FSM_PRINT_AMD64_GO, FSM_IO_STR, true}, {"vmdot", FSM_PRINT_VMDOT, FSM_IO_STR, true}, {"vmops c", FSM_PRINT_VMOPS_C, FSM_IO_STR, true}})
		for (enum fsm_ambig am : {AMBIG_NONE, AMBIG_MULTIPLE}) { L k = l; if (am != AMBIG_NONE && l.l != FSM_PRINT_C && l.l != FSM_PRINT_IRJSON) continue; op(strdup(fmt("print %s%s", l.n, am ? " multiple" : "").c_str()), QUERY, 1, [k, am](Run &r) { return printed(r, k.l, k.io, false, am); }, l.dfa); }
	static const char *pats[] = {"abc", "(a|b)*c+", "^[a-z]{2,3}$", "a.?b(c|de)", "x{0}", "(?i)ab|cd", "[^a]", "^$", ".*a.*b.*c", ""};
	for (const char *p : pats) for (int fl : {0, (int) RE_SAVE_LINKAGE_INFO, (int) RE_SINGLE}) op(strdup(fmt("re_comp %s flags %d", p, fl).c_str()), MAKE, 0, [p, fl](Run &r) { auto c = rx_comp(RE_PCRE, p, fl, &FA.a); return made(r, c.f); });
	for (auto d : {RE_NATIVE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL}) op(strdup(fmt("re_comp dialect %d", d).c_str()), MAKE, 0, [d](Run &r) { auto c = rx_comp(d, "ab*c", 0, &FA.a); return made(r, c.f); });
	for (int n : {2, 3, 5}) op(strdup(fmt("fsm_union_repeated_pattern_group %d", n).c_str()), MAKEQ, 0, [n](Run &r) {
		static const char *g[] = {"ab", "^c", "d$", "", "^x+y$"}; std::vector<struct fsm *> v; long fa = FA.failat; bool af = FA.after; FA.failat = -1; long c = FA.count;
		for (int i = 0; i < n; i++) v.push_back(rx_comp(RE_PCRE, g[i], RE_SAVE_LINKAGE_INFO, &FA.a).f);
		FA.count = c; FA.failat = fa; FA.after = af; r.m = v; struct fsm_combined_base_pair b[8]; return made(r, fsm_union_repeated_pattern_group(n, v.data(), b, 1)); });
	for (int fl = 0; fl < 4; fl++) op(strdup(fmt("re_strings flags %d", fl).c_str()), MAKE, 0, [fl](Run &r) { static const char *w[] = {"abc", "ab", "b", "cab", ""}; return made(r, re_strings(&FA.a, w, 5, (enum re_strings_flags) fl)); });
	op("re_strings with ids", MAKE, 0, [](Run &r) { struct re_strings *g = re_strings_new(); if (!g) return false; fsm_end_id_t a = 1, b = 2; re_strings_add_str(g, "abc", &a); re_strings_add_str(g, "bc", &b); re_strings_add_raw(g, "abc", 3, &b); struct fsm *f = re_strings_build(g, &FA.a, (enum re_strings_flags) 0); re_strings_free(g); return made(r, f); });
	if (mem) op("fsm_parse", MAKE, 0, [](Run &r) { static const char t[] = "0 -> 1 \"a\";\n1 -> 2 'b';\n1 -> 1 ?;\n2 -> 0;\nstart: 0;\nend: 1 = [3, 4], 2 = [5];\n"; FILE *f = fmemopen((void *) t, sizeof t - 1, "r"); struct fsm *x = fsm_parse(f, &FA.a); fclose(f); return made(r, x); });
}
extern "C" void path_free(const struct fsm_alloc *a, struct path *path);
void pfree(struct path *p) { path_free(&FA.a, p); }

static std::vector<Nfa> inputs; static std::vector<std::string> inames;
static void define_inputs() {
	auto add = [](const Nfa &a, const std::string &n) { inputs.push_back(a); inames.push_back(n); };
	struct F { int f, N, ids; };
	std::vector<F> fs = {{0, 3, 1}, {2, 4, 0}, {4, 3, 4}, {7, 6, 3}, {8, 5, 1}, {13, 4, 0}, {16, 7, 2}, {17, 3, 1}, {21, 3, 0}, {6, 12, 5}, {0, 40, 1}};
	if (T) for (auto x : std::vector<F>{{3, 9, 1}, {9, 4, 0}, {10, 12, 1}, {11, 20, 4}, {12, 9, 1}, {14, 9, 0}, {15, 9, 6}, {18, 9, 1}, {19, 30, 1}, {20, 30, 2}, {22, 7, 1}, {23, 5, 1}, {5, 30, 1}, {0, 130, 1}, {13, 12, 1}, {6, 20, 1}}) fs.push_back(x);
	for (auto &f : fs) { Nfa a = family(f.f, f.N); assign_ids(a, f.ids); add(a, fmt("%s %d ids %d", family_name[f.f], f.N, f.ids)); if (f.f % 2) { Nfa b = a; b.s[0].eager = {3}; b.s[b.n() / 2].eager = {1, 2, 9}; add(b, inames.back() + " eager"); } }
	{ Nfa a; a.add(false); a.start = 0; add(a, "one dead state"); } { Nfa a; a.add(true); a.start = 0; a.lit(0, 0, 'a'); add(a, "a*"); } { Nfa a; a.add(true); a.add(false); a.lit(0, 1, 'a'); add(a, "no start"); }
}
