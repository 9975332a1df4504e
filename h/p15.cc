// P15: a compiled virtual machine, whichever encoding and options, answers as the DFA does.
#include "gen.h"
#include "conf.h"
extern "C" {
#include <fsm/vm.h>
#include <fsm/options.h>
// internal, and so weak: a program saved and loaded again
#include "libfsm/vm/vm.h"
enum dfavm_io_result fsm_dfavm_save(FILE *f, const struct fsm_dfavm *vm);
enum dfavm_io_result fsm_dfavm_load(FILE *f, struct fsm_dfavm *vm);
}
#pragma weak fsm_dfavm_save
#pragma weak fsm_dfavm_load
static Nfa cur; static Table tab; static std::vector<struct fsm_dfavm *> vms; static std::vector<std::string> vname;
static bool lite;
static bool ask(const std::string &s, int files) {
	int q = dfa_run(cur, tab, s); int want = q >= 0 && cur.s[q].end; char *b = (char *) malloc(s.size() ? s.size() : 1); memcpy(b, s.data(), s.size()); char *p = lite ? b : b; bool good = true; H.tick();
	for (size_t i = 0; i < vms.size() && good; i++) { H.traces++; int r = fsm_vm_match_buffer(vms[i], s.empty() ? b : p, s.size()); if (r != want) { H.fail("buffer", vname[i] + fmt(": %d, want %d, on ", r, want) + show(s.substr(0, 200))); good = false; }
		if (files) { FILE *f = s.empty() ? fopen("/dev/null", "r") : fmemopen(b, s.size(), "r"); if (files == 2) setvbuf(f, nullptr, _IONBF, 0); r = fsm_vm_match_file(vms[i], f); fclose(f); if (r != want) { H.fail("file", vname[i] + fmt(": %d, want %d, on %zu bytes ", r, want, s.size()) + show(s.substr(0, 200))); good = false; } } }
	free(b); return good;
}
static void drop() { for (auto v : vms) fsm_vm_free(v); vms.clear(); vname.clear(); }
static bool compile(const struct fsm *f, bool mayrefuse = false) {
	static const struct fsm_options zero = {}; struct fsm_options opt = zero; vms.push_back(fsm_vm_compile(f)); vname.push_back("default");
	for (int o = 0; o < 4; o++) { struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.flags = o & 1 ? FSM_VM_COMPILE_OPTIM : 0; vo.output = o & 2 ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; opt.comments = o == 1 && cur.n() < 20; struct fsm_dfavm *v = fsm_vm_compile_with_options(f, &opt, vo); if (!v && (o & 2) && mayrefuse) { H.counters["refused_v2"]++; continue; } vms.push_back(v); vname.push_back(fmt("v%d%s", o & 2 ? 2 : 1, o & 1 ? " optimised" : "")); }
	for (size_t i = 0; i < vms.size(); i++) if (!vms[i]) { H.fail("compile", vname[i] + ": compiling failed"); vms.erase(vms.begin() + i); vname.erase(vname.begin() + i); return false; }
	if (fsm_dfavm_save && fsm_dfavm_load) for (size_t i = 0, n = vms.size(); i < n && i < 1; i++) {
		if (vname[i].compare(0, 2, "v2") == 0) continue; char *t = nullptr; size_t z = 0; FILE *m = open_memstream(&t, &z); auto x = fsm_dfavm_save(m, vms[i]); fclose(m);
		if (x == DFAVM_IO_UNSUPPORTED_VERSION) { free(t); continue; } if (x != DFAVM_IO_OK) { H.fail("save", vname[i] + " can't be saved"); free(t); return false; }
		for (size_t cut : { z, z - 1, z / 2, (size_t) 8, (size_t) 1 }) { if (cut > z || cut == 0 || (cut == 8 && z == 8)) continue; struct fsm_dfavm *v = (struct fsm_dfavm *) calloc(1, sizeof *v); m = fmemopen(t, cut, "r"); x = fsm_dfavm_load(m, v); fclose(m);
			if (cut == z && x != DFAVM_IO_OK) { H.fail("load", vname[i] + fmt(": %zu bytes saved can't be loaded", z)); free(v); free(t); return false; }
			if (cut < z && x == DFAVM_IO_OK) { H.fail("load", vname[i] + fmt(": %zu of %zu bytes saved are loaded as if they were whole", cut, z)); fsm_vm_free(v); free(t); return false; }
			if (cut < z) free(v); else { vms.push_back(v); vname.push_back(vname[i] + ", saved and loaded"); H.counters["saved"]++; } }
		free(t); }
	return true;
}
static void run(const Nfa &a, const std::string &name, int len, bool refuse = false) {
	if (!H.begin([&] { return name.empty() ? a.str() : name; })) return; cur = a; tab = dfa_table(a); struct fsm *f = build(a); bool ok = true;
	if (a.start < 0 || !is_dfa_shape(a)) { struct fsm_dfavm *v = fsm_vm_compile(f); if (a.start >= 0) { if (v) H.fail("nfa", "compiled a machine that isn't a DFA"); } else if (v) for (const char *s : { "", "a", "ab" }) if (fsm_vm_match_buffer(v, s, strlen(s))) H.fail("startless", "matched"); if (v) fsm_vm_free(v); fsm_free(f); return; }
	H.nontrivial++; if (!compile(f, refuse)) { drop(); fsm_free(f); return; }
	Nfa now = extract(f); if (now.str() != extract(f).str()) H.fail("changed", "");
	unsigned char rc[256]; auto reps = table_classes(tab, rc); if (len > 0) all_strings(reps, len, [&](const std::string &s) { return ok = ask(s, s.size() <= 2 ? 1 : 0); });
	if (ok && len == -1) { std::string w(2, 0); for (int x = 0; x < 256 && ok; x++) for (int y = -1; y < 256 && ok; y++) { w.resize(1); w[0] = x; if (y >= 0) w += (char) y; ok = ask(w, 0); } } else if (ok) { Suite su(a, tab, false); H.states += a.n(); size_t k = 0; if (len == 0) for (auto &w : su.access) if (ok) ok = ask(w, 1); if (ok) su.each(a, tab, a.n() > 60 && !H.thorough && name.find("states") == std::string::npos ? edge_bytes(tab) : all_bytes(), [&](const std::string &s) { H.transitions++; if (k++ > 60000000) { H.counters["cut"]++; return false; } return ok = ask(s, 0); }, -1, a.n() > 150 && !H.thorough ? 7 : 1); }
	// across the file buffer
	if (ok && a.n() <= 40 && (H.thorough || H.idx % 7 == 0 || a.n() == 1)) { int q = a.start; std::string s; for (int i = 0; i < 9000; i++) { int c = -1; for (size_t j = 0; j < reps.size() && c < 0; j++) { int r = reps[(j + i) % reps.size()]; if (tab[q][r] >= 0) c = r; } if (c < 0) break; s += (char) c; q = tab[q][c]; }
		if (s.size() == 9000) { H.counters["long"]++; for (size_t n : { 4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 9000u }) { if (!ok) break; std::string p = s.substr(0, n); ok = ask(p, 1); for (unsigned char c : reps) if (ok) ok = ask(p + (char) c, 1); } if (ok && a.n() < 4) ok = ask(s, 2); } }
	drop(); fsm_free(f);
}
// programs big enough for every branch form: n states with about w branches each
static Nfa big(int n, int w, int kind) { Nfa a; for (int i = 0; i < n; i++) a.add(i % 7 * (i % 11) % 5 < 2); a.start = kind % 3 == 1 ? n / 2 : 0;
	for (int i = 0; i < n; i++) { std::map<int, Bytes> m; for (int c = 0; c < 256; c++) { int to; if (kind == 0) to = (i * 31 + (c * w / 256) * 57 + (c >> 1 & 1)) % n; else if (kind == 1) to = c % 2 ? -1 : (i + 1 + c * w / 256) % n; else to = c == 0 ? (i + 1) % n : (i + (c * w / 256) * (n / 7 + 1)) % n; if (to >= 0) m[to].set(c); } for (auto &x : m) a.set(i, x.first, x.second); }
	return a; }
int main(int argc, char **argv) {
	H.init(argc, argv); lite = H.arg.count("lite"); bool T = H.thorough && !lite;
	auto D = [&](const Nfa &a) { run(a, "", a.n() < 3 ? 5 : 4); };
	enum_dfas(1, 2, D); enum_dfas(2, 2, D); enum_dfas(2, 3, [&](const Nfa &a) { run(a, "", 4); }, lite); enum_dfas(3, 2, [&](const Nfa &a) { if (lite && H.idx % 5) return; run(a, "", T ? 6 : 4); }, !T); if (T) enum_dfas(4, 2, [&](const Nfa &a) { run(a, "", 5); }, true);
	enum_nfas(2, 2, 2, true, [&](const Nfa &a) { run(a, "", 3); }); { Nfa a; if (H.take()) run(a, "no states", 0); a.add(true); a.start = -1; if (H.take()) run(a, "no start", 0); }
	// one state's transitions: every way of splitting the bytes at up to three places between up to three targets and nothing
	{ std::vector<int> cut = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256 };
	  for (size_t i = 0; i < cut.size(); i++) for (size_t j = i; j < cut.size(); j++) for (size_t k = j; k < cut.size(); k++) for (int x = 0; x < 256; x++) { if (H.stop()) break; if (!H.take()) continue; if (!T && H.idx % (lite ? 29 : 7)) continue; int to[4] = { x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6 & 3 }; Nfa a; a.add(x % 5 == 0); a.add(false); a.add(true); a.start = 0; Bytes m[3]; for (int c = 0; c < 256; c++) { int p = (c >= cut[i]) + (c >= cut[j]) + (c >= cut[k]); if (to[p] < 3) m[to[p]].set(c); } for (int q = 0; q < 3; q++) if (m[q].any()) a.set(0, q, m[q]); a.set(1, 2, BR(x, 255)); a.set(2, x % 3, B1(x)); run(a, "", 0); } }
	// every number of distinct targets and of runs
	for (int n = 1; n <= 256; n++) for (int v = 0; v < 4; v++) { if (!T && n > 9 && n < 254 && n % 8 > 1 || lite && n > 9 && n < 250) continue; if (H.stop()) break; if (!H.take()) continue; Nfa a; for (int i = 0; i < n + 1; i++) a.add(i % 2 == 0); a.start = v & 1 ? n : 0; for (int c = 0; c < 256; c++) { int to = v < 2 ? c % n : c * n / 256; if (v == 3 && c % 7 == 0) continue; a.set(a.start, (to + (v & 1)) % (n + 1), B1(c)); } for (int i = 0; i < n; i++) if (i != a.start) a.set(i, ((i | 1) + 1) % (n + 1) / 2 * 2, B1(i & 255)); if (is_dfa_shape(a)) run(a, fmt("%d targets, kind %d", n, v), n > 20 ? -1 : 0); }
	enum_families([&](const Nfa &a0, const std::string &n) { Nfa a = is_dfa_shape(a0) ? a0 : ref_trim(ref_dfa(a0, 600)); if (a.n() == 0) return; run(a, n, 0); }, T ? 300 : lite ? 30 : 80, false, lite ? 1 : 2);
	if (!lite) for (int k = 0; k < 3; k++) for (int n : { 40, 130, 200, T ? 700 : 300 }) for (int w : { 8, 60, 256 }) { if (H.stop()) break; if (!H.take()) continue; run(big(n, w, k), fmt("%d states, width %d, kind %d", n, w, k), 0, n >= 300 && w == 256); }
	if (!lite) for (int n : { 1000, 40000, T ? 70000 : 50000 }) { if (!H.take() || H.stop() || !H.begin([&] { return fmt("chain of %d", n); })) continue; H.nontrivial++; cur = Nfa(); for (int i = 0; i <= n; i++) cur.add(i % 1000 == 7 || i == n); cur.start = 0; for (int i = 0; i < n; i++) { cur.set(i, i + 1, B1('a' + i % 3)); if (i % 10 == 0) cur.set(i, (i + n / 2) % (n + 1), B1('z')); } tab = dfa_table(cur); struct fsm *f = build(cur); if (compile(f)) { std::string s; for (int i = 0; i < n; i++) s += (char) ('a' + i % 3); ask(s, 1); for (int i = 0; i < n; i += n / 50) { std::string p = s.substr(0, i); ask(p, 1); ask(p + "z", 0); ask(p + "zzz", 0); ask(p + "q", 0); std::string q = p + "z"; int st = dfa_run(cur, tab, q); if (st >= 0) { for (int j = 0; j < 2000 && st >= 0 && st < n; j++) { q += (char) ('a' + st % 3); st++; } ask(q, 0); } } } drop(); fsm_free(f); }
	// more far branches than the second encoding can number
	if (!lite) { if (H.take() && H.begin([] { return std::string("900 states of 256 branches"); })) { Nfa a = big(900, 256, 0); cur = a; tab = dfa_table(a); struct fsm *f = build(a); if (compile(f, true)) { bool ok = true; std::vector<char> seen(a.n(), 0); Suite su(a, tab, false); for (int s = 0; s < (int) a.n() && ok; s++) if (su.reach[s]) for (int b = 0; b < 256 && ok; b += 3) ok = ask(su.access[s] + (char) b + su.W.back(), 0) && ask(su.access[s] + (char) b, 0); } drop(); fsm_free(f); } }
	return H.finish();
}
