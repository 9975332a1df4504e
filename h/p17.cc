// P17: code generated for a DFA in languages other than C, compiled or interpreted, answers as the DFA does.
// LINK: -ldl
#include "gen.h"
#include "ids.h"
#include "conf.h"
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <errno.h>
#include <memory>
extern "C" {
#include <fsm/print.h>
#include <fsm/options.h>
}
enum { GETC, STR, PAIR };
enum { LLVM, ATT, NASM, GO, GOASM, RUST, AWK, SH, VMOPS, NL };
static const char *ion[] = { "getc", "str", "pair" }, *lnm[] = { "llvm", "att", "nasm", "go", "goasm", "rust", "awk", "sh", "vmops" };
static const int lcode[] = { FSM_PRINT_LLVM, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_GO, FSM_PRINT_AMD64_GO, FSM_PRINT_RUST, FSM_PRINT_AWK, FSM_PRINT_SH, FSM_PRINT_VMOPS_C };
struct Case; struct Fn { Case *c; std::string pre, src, opts; int lang, io, ambig; bool frag; int64_t id; bool args = false; void *p = nullptr; };
struct Case { int64_t idx; std::function<std::string()> cur; Nfa a; Table t; std::vector<std::string> ss; std::set<int> dead; };
static std::vector<std::unique_ptr<Case>> cases; static std::vector<Fn> fns; static size_t pbytes; static int seq; static std::string dir; static bool T; static char *guard; static const size_t GN = 1 << 16; static int64_t nfn; static std::string CLANG;
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { perror(p.c_str()); exit(2); } }
static int sh(const std::string &cmd, std::string *err) { H.tick(); int r = system(("(" + cmd + ") >" + dir + "/err 2>&1").c_str()); H.tick(); if (r && err) *err = slurp(dir + "/err").substr(0, 1500); return r; }
static std::string idl(const Ids &s) { std::string o; for (auto x : s) o += fmt("%llu,", (unsigned long long) x); return o; }
static void fail(const Fn &f, const std::string &kind, const std::string &msg) { if (!f.c->dead.insert(f.lang).second) return; int64_t oi = H.idx; auto oc = H.cur; H.idx = f.c->idx; H.cur = f.c->cur; H.fail(std::string(lnm[f.lang]) + (kind.empty() ? "" : "-" + kind), std::string(ion[f.io]) + f.opts + ": " + msg); H.idx = oi; H.cur = oc; }
// can this string be given to this program?
static bool can(const Fn &f, const std::string &s) {
	if (f.lang == AWK || f.lang == SH) { if (s.find('\0') != std::string::npos || s.find('\n') != std::string::npos) return false; }
	if (f.io == STR && (f.lang == LLVM || f.lang == VMOPS)) return s.find('\0') == std::string::npos;
	if (f.lang == RUST && f.io == STR) { for (size_t i = 0; i < s.size(); ) { unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe1 && c < 0xed ? 3 : 0; if (!n || i + n > s.size()) return false; for (size_t k = 1; k < n; k++) if (((unsigned char) s[i + k] & 0xc0) != 0x80) return false; i += n; } }
	return true;
}
struct Ans { int ok; Ids ids; bool haveids; };
static bool judge(const Fn &f, const std::string &s, const Ans &g) {
	const Case &c = *f.c; int q = dfa_run(c.a, c.t, s); bool want = q >= 0 && c.a.s[q].end; H.traces++;
	if (g.ok != want) { fail(f, "", fmt("%s, want %s, on ", g.ok == 1 ? "accepted" : g.ok == 0 ? "rejected" : fmt("answered %d", g.ok).c_str(), want ? "accept" : "reject") + show(s.substr(0, 200)) + fmt(" (%zu bytes)", s.size())); return false; }
	if (want && g.haveids && f.ambig != AMBIG_NONE) { Ids w = c.a.s[q].ids; if (f.ambig != AMBIG_MULTIPLE && f.lang != VMOPS) w = { *w.begin() }; if (g.ids != w) { fail(f, "ids", "ids " + idl(g.ids) + " want " + idl(w) + " on " + show(s.substr(0, 200))); return false; } }
	return true;
}
// calls one function in this process
static bool ask(const Fn &f, const std::string &s) {
	if (!can(f, s)) return true; if (f.io == STR && f.lang != RUST) { size_t n = s.size(); char *b = guard + GN - n - 1; memcpy(b, s.data(), n); b[n] = 0; }
	H.tick(); char *e = guard + GN, *b = e - s.size(); unsigned id = 4242; const unsigned *ids = nullptr; size_t cnt = 0; Ans g = { 0, {}, true }; MemIn in = { s.data(), s.size() };
	if (f.io == STR && f.lang != RUST) b = guard + GN - s.size() - 1; else memcpy(b, s.data(), s.size());
	if (f.lang == RUST) { long r = ((long (*)(const char *, size_t, unsigned *, const unsigned **)) f.p)(b, s.size(), &id, &ids); g.ok = r >= 0; if (r >= 0) { if (f.ambig == AMBIG_MULTIPLE) for (long i = 0; i < r; i++) g.ids.insert(ids[i]); else g.ids.insert(id); } }
	else if (f.lang == LLVM) { static void *wr[3][3]; void *&w = wr[f.io][f.ambig == AMBIG_NONE ? 0 : f.ambig == AMBIG_MULTIPLE ? 2 : 1]; if (!w) w = dlsym(RTLD_DEFAULT, fmt("w_%s_%d", ion[f.io], f.ambig == AMBIG_NONE ? 0 : f.ambig == AMBIG_MULTIPLE ? 2 : 1).c_str()); if (!w) { fprintf(stderr, "no wrapper\n"); exit(2); }
		typedef int (*G)(void *); long r = f.io == GETC ? ((long (*)(void *, G, void *, unsigned *, const unsigned **)) w)(f.p, mem_getc, &in, &id, &ids) : ((long (*)(void *, const char *, const char *, unsigned *, const unsigned **)) w)(f.p, b, e, &id, &ids);
		g.ok = f.ambig == AMBIG_MULTIPLE ? r >= 0 : (int) r; if (g.ok == 1) { if (f.ambig == AMBIG_MULTIPLE) for (long i = 0; i < r; i++) g.ids.insert(ids[i]); else g.ids.insert(id); } }
	else if (f.lang == VMOPS) { if (f.ambig == AMBIG_NONE) g.ok = f.io == STR ? ((int (*)(const char *)) f.p)(b) : ((int (*)(const char *, const char *)) f.p)(b, e); else { g.ok = f.io == STR ? ((int (*)(const char *, const unsigned **, size_t *)) f.p)(b, &ids, &cnt) : ((int (*)(const char *, const char *, const unsigned **, size_t *)) f.p)(b, e, &ids, &cnt); if (g.ok == 1) for (size_t i = 0; i < cnt; i++) g.ids.insert(ids[i]); } }
	else g.ok = ((int (*)(const char *, size_t)) f.p)(b, s.size());
	return judge(f, s, g);
}
static void suite(Case &c, const Fn &f, bool full, const std::function<bool(const std::string &)> &cb) {
	for (auto &s : c.ss) if (!cb(s)) return; if (c.a.start < 0) { for (const char *s : { "", "a", "ab" }) if (!cb(s)) return; return; }
	size_t k = 0, cap = f.lang == SH ? (T ? 1500 : 150) : f.lang == GO || f.lang == GOASM ? 60000 : f.lang == AWK ? 3000 : 2000000; static const char *sp = "\"'\\\a\b\t\r\f\v /?`0x~\x7f\x80\x9f\xa0\xff!#$&*()[]{};|<>"; std::vector<unsigned char> bs; if (f.lang == SH || f.lang == AWK) { std::set<unsigned char> u; for (auto b : edge_bytes(c.t)) u.insert(b); for (const char *p = sp; *p; p++) if (u.size() < 60) u.insert(*p); bs.assign(u.begin(), u.end()); } else bs = full ? all_bytes() : edge_bytes(c.t);
	Suite su(c.a, c.t, f.ambig != AMBIG_NONE); su.each(c.a, c.t, bs, [&](const std::string &s) { if (!can(f, s)) return true; if (k++ > cap) { H.counters["cut"]++; return false; } H.transitions++; return cb(s); }, -1, c.a.n() > 60 && !T ? 11 : 1);
}
static void in_process(std::vector<Fn *> &v, void *h) { for (auto f : v) { std::string n = f->pre + (f->lang == ATT || f->lang == NASM || f->lang == VMOPS ? "match" : "main"); if (f->lang == RUST) n = "w_" + f->pre; f->p = dlsym(h, n.c_str()); if (!f->p) { fail(*f, "compile", "no symbol " + n); continue; } int64_t oi = H.idx; H.sh->idx = f->c->idx; H.states += f->c->a.n(); suite(*f->c, *f, true, [&](const std::string &s) { return ask(*f, s); }); H.sh->idx = oi; } }
static std::string rust_wrap(const Fn &f) { std::string o = "#[no_mangle]\npub extern \"C\" fn w_" + f.pre + "(p: *const u8, n: usize, id: *mut u32, ids: *mut *const u32) -> isize {\n let s = unsafe { std::slice::from_raw_parts(p, n) };\n match " + f.pre + "main("; o += f.io == GETC ? "s.iter().copied()" : f.io == STR ? "unsafe { std::str::from_utf8_unchecked(s) }" : "s"; o += ") {\n Some(x) => { "; o += f.ambig == AMBIG_NONE ? "let _: () = x; let _ = (id, ids); 1" : f.ambig == AMBIG_MULTIPLE ? "unsafe { *ids = x.as_ptr(); } let _ = id; x.len() as isize" : "unsafe { *id = x; } let _ = ids; 1"; return o + " }\n None => -1,\n }\n}\n"; }
// compiles these functions into a shared object, or returns false with what the compiler said
static bool build_so(int lang, std::vector<Fn *> v, const std::string &so, std::string *err) {
	std::string b = dir + fmt("/x%d", seq++), cmd; std::vector<std::string> files; std::string outs;
	if (lang == RUST) { std::string s = "#![allow(warnings)]\n"; for (auto f : v) s += f->src + rust_wrap(*f); spit(b + ".rs", s); files.push_back(b + ".rs"); cmd = "rustc --edition 2021 --crate-type cdylib -C panic=abort -C opt-level=0 -A warnings -o " + so + " " + b + ".rs"; }
	else if (lang == NASM) { std::string s; for (auto f : v) s += f->src; spit(b + ".s", s); files = { b + ".s", b + ".o" }; cmd = "nasm -f elf64 -o " + b + ".o " + b + ".s && gcc -shared -z noexecstack -o " + so + " " + b + ".o"; }
	else if (lang == VMOPS) { std::string s; for (auto f : v) s += "#undef main\n#define main " + f->pre + "cmain\n" + f->src; spit(b + ".c", s); files = { b + ".c" }; cmd = "gcc -std=gnu99 -shared -fPIC -O0 -w -o " + so + " " + b + ".c"; }
	else { std::string in; int k = 0; for (auto f : v) { std::string n = b + fmt("_%d", k++) + (lang == LLVM ? ".ll" : ".s"); spit(n, f->src); files.push_back(n); in += " " + n.substr(dir.size() + 1); std::string o = n.substr(0, n.rfind('.')) + ".o"; files.push_back(o); outs += " " + o.substr(dir.size() + 1); }
		cmd = "cd " + dir + " && " + (lang == LLVM ? CLANG + " -w -fPIC -O" + (v.size() > 1 && seq % 3 == 0 ? "2" : "0") + " -x ir -c" : std::string("gcc -c")) + in + " && gcc -shared -z noexecstack -o " + so.substr(dir.size() + 1) + outs; }
	int r = sh(cmd, err); for (auto &f : files) unlink(f.c_str()); H.counters["compilations"]++; return r == 0;
}
static void compiled(int lang) {
	std::vector<Fn *> v; for (auto &f : fns) if (f.lang == lang) v.push_back(&f); if (v.empty()) return; std::string so = dir + fmt("/s%d.so", seq++), err;
	auto go = [&](std::vector<Fn *> w) { void *h = dlopen(("./" + so).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } in_process(w, h); dlclose(h); unlink(so.c_str()); };
	if (build_so(lang, v, so, &err)) { go(v); return; }
	// which of them?
	std::function<void(std::vector<Fn *>, int &)> split = [&](std::vector<Fn *> w, int &left) { if (left <= 0 || w.empty()) return; so = dir + fmt("/s%d.so", seq++); if (build_so(lang, w, so, &err)) { go(w); return; } if (w.size() == 1) { left--; fail(*w[0], "compile", err); return; } size_t m = w.size() / 2; split(std::vector<Fn *>(w.begin(), w.begin() + m), left); split(std::vector<Fn *>(w.begin() + m, w.end()), left); }; int left = 3; split(v, left); if (left == 3) { fprintf(stderr, "the compiler failed on the batch only: %s\n", err.c_str()); exit(2); }
}
// Go: one program for all, which reads the strings and writes the answers
static bool go_build(const std::vector<Fn *> &v, const std::string &d, std::string *err) {
	if (mkdir((dir + "/" + d).c_str(), 0700) || mkdir((dir + "/" + d + "/p").c_str(), 0700)) { perror("mkdir"); exit(2); } spit(dir + "/" + d + "/go.mod", "module vt\ngo 1.21\n");
	std::string imp = "package main\nimport (\n\"os\"\n", body = "type F = func(string, []byte) (bool, []uint)\nvar fs = map[uint32]F{\n"; bool p = false; std::string stubs = "package tfsm\n";
	for (auto f : v) { std::string n = fmt("f%lld", (long long) f->id), pk = "p"; std::string arg = f->io == STR ? "s" : "b"; if (f->args) arg += ", 7";
		if (f->lang == GO && f->ambig == AMBIG_MULTIPLE) { pk = n; mkdir((dir + "/" + d + "/" + n).c_str(), 0700); imp += n + " \"vt/" + n + "\"\n"; } else p = true;
		spit(dir + "/" + d + "/" + pk + "/" + n + (f->lang == GOASM ? "_amd64.s" : ".go"), f->src);
		if (f->lang == GOASM) { stubs += "func " + f->pre + "Match(data " + (f->io == STR ? "string" : "[]byte") + ") int\n"; body += fmt("%lld: func(s string, b []byte) (bool, []uint) { r := p.", (long long) f->id) + f->pre + "Match(" + arg + "); if r != 0 && r != 1 { return false, []uint{99, 99} }; return r == 1, nil },\n"; }
		else { body += fmt("%lld: func(s string, b []byte) (bool, []uint) { ", (long long) f->id); std::string call = pk + "." + f->pre + "Match(" + arg + ")"; body += f->ambig == AMBIG_NONE ? "return " + call + ", nil },\n" : f->ambig == AMBIG_MULTIPLE ? "r, x := " + call + "; return r, x },\n" : "r, x := " + call + "; return r, []uint{x} },\n"; } }
	if (p) imp += "p \"vt/p\"\n"; spit(dir + "/" + d + "/p/stubs.go", stubs);
	spit(dir + "/" + d + "/main.go", imp + ")\n" + body + "}\n" R"(
func u32(b []byte) uint32 { return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24 }
func main() {
	in, err := os.ReadFile(os.Args[1]); if err != nil { os.Exit(9) }
	var out []byte; put := func(n uint32) { out = append(out, byte(n), byte(n>>8), byte(n>>16), byte(n>>24)) }
	for len(in) > 0 {
		f := fs[u32(in)]; n := u32(in[4:]); in = in[8:]
		for i := uint32(0); i < n; i++ { l := u32(in); s := in[4:4+l]; in = in[4+l:]; r, ids := f(string(s), append(make([]byte, 0, l), s...)); if r { put(1) } else { put(0) }; put(uint32(len(ids))); for _, x := range ids { put(uint32(x)) } }
	}
	os.WriteFile(os.Args[2], out, 0600)
}
)");
	int r = sh("cd " + dir + "/" + d + " && env GO111MODULE=on GOFLAGS=-mod=mod GOTOOLCHAIN=local GOCACHE=$OLDPWD/" + dir + "/gocache GOTMPDIR= go build -p 2 -gcflags=all=-l -o prog .", err); H.counters["compilations"]++; return r == 0;
}
static void put32(std::string &o, uint32_t n) { for (int i = 0; i < 4; i++) o += (char) (n >> i * 8); }
static bool go_run(const std::vector<Fn *> &v, const std::string &d) {
	std::string in; std::vector<std::pair<Fn *, std::vector<std::string>>> q; for (auto f : v) { std::vector<std::string> ss; suite(*f->c, *f, false, [&](const std::string &s) { ss.push_back(s); return true; }); H.states += f->c->a.n(); put32(in, f->id); put32(in, ss.size()); for (auto &s : ss) { put32(in, s.size()); in += s; } q.emplace_back(f, ss); }
	std::string b = dir + "/" + d; spit(b + "/in", in); in.clear(); unlink((b + "/out").c_str()); std::string err; int r = sh("timeout 100 " + b + "/prog " + b + "/in " + b + "/out", &err); if (r) { if (v.size() == 1) { fail(*v[0], "run", "the program failed: " + err); return true; } return false; }
	std::string o = slurp(b + "/out"); size_t p = 0; auto g = [&]() -> uint32_t { if (p + 4 > o.size()) { fprintf(stderr, "short output\n"); exit(2); } uint32_t n; memcpy(&n, o.data() + p, 4); p += 4; return n; };
	for (auto &x : q) for (auto &s : x.second) { Ans a = { 0, {}, true }; a.ok = g(); uint32_t n = g(); for (uint32_t i = 0; i < n; i++) a.ids.insert(g()); if (x.first->lang == GOASM) { a.haveids = false; if (n) a.ok = 99; } judge(*x.first, s, a); H.tick(); } return true;
}
static void rmtree(const std::string &d) { if (d.find(dir + "/") == 0) { int r = system(("rm -rf -- ./" + d).c_str()); (void) r; } }
static void golang() {
	std::vector<Fn *> v; for (auto &f : fns) if (f.lang == GO || f.lang == GOASM) v.push_back(&f); if (v.empty()) return; std::string d = fmt("g%d", seq++), err; int left = 3;
	std::function<void(std::vector<Fn *>)> go = [&](std::vector<Fn *> w) { if (w.empty() || left <= 0) return; std::string d = fmt("g%d", seq++); bool b = go_build(w, d, &err); bool done = b && go_run(w, d); rmtree(dir + "/" + d); if (done) return; if (w.size() == 1) { left--; if (!b) fail(*w[0], "compile", err); return; } size_t m = w.size() / 2; go(std::vector<Fn *>(w.begin(), w.begin() + m)); go(std::vector<Fn *>(w.begin() + m, w.end())); };
	bool b = go_build(v, d, &err); bool done = b && go_run(v, d); rmtree(dir + "/" + d); if (done) return; size_t m = (v.size() + 1) / 2; if (v.size() == 1) { if (!b) fail(*v[0], "compile", err); return; } go(std::vector<Fn *>(v.begin(), v.begin() + m)); go(std::vector<Fn *>(v.begin() + m, v.end())); if (left == 3) { fprintf(stderr, "Go failed on the batch only: %s\n", err.c_str()); exit(2); }
}
// awk: gawk's switch is rewritten for mawk; its cases fall through
static std::string awk_rewrite(const std::string &s) {
	std::string o; size_t i = 0; bool in = false; int depth = 0, sd = -1; auto word = [&](const char *w) { size_t n = strlen(w); return s.compare(i, n, w) == 0 && !isalnum((unsigned char) s[i + n]) && s[i + n] != '_' && (i == 0 || (!isalnum((unsigned char) s[i - 1]) && s[i - 1] != '_')); };
	std::string var; while (i < s.size()) { char c = s[i];
		if (c == '"') { size_t j = i + 1; while (j < s.size() && s[j] != '"') j += s[j] == '\\' ? 2 : 1; o += s.substr(i, j + 1 - i); i = j + 1; continue; }
		if (c == '#') { size_t j = s.find('\n', i); i = j; continue; }
		if (word("switch")) { size_t a = s.find('(', i), b = s.find(')', a), k = s.find('{', b); var = s.substr(a + 1, b - a - 1); sd = depth++; i = k + 1; o += "on_ = 0; if (0) {"; in = true; continue; }
		if (in && word("case")) { i += 4; while (s[i] == ' ') i++; size_t j = i; if (s[j] == '"') { j++; while (s[j] != '"') j += s[j] == '\\' ? 2 : 1; j++; } else while (s[j] != ':') j++; std::string v = s.substr(i, j - i); i = s.find(':', j) + 1; o += "}\nif (on_ || (" + var + " \"\") == (" + v + " \"\")) { on_ = 1;"; continue; }
		if (c == '{') depth++; if (c == '}') { depth--; if (depth == sd) in = false; } o += c; i++; }
	// the flag is local
	size_t p = o.find("function "), q = p == std::string::npos ? p : o.find(')', p); if (q != std::string::npos) o.insert(q, ", on_"); return o;
}
static void awk() { int left = 3; for (auto &f : fns) if (f.lang == AWK && left > 0) {
	std::string b = dir + fmt("/k%d", seq++), in; std::vector<std::string> ss; suite(*f.c, f, false, [&](const std::string &s) { if (can(f, s)) { ss.push_back(s); in += s + "\n"; } return true; }); H.states += f.c->a.n();
	spit(b + ".awk", (f.frag ? "function " + f.pre + "main(s,    l, c, on_) {\n" + awk_rewrite(f.src) + "}\n" : awk_rewrite(f.src)) + "{ r = " + f.pre + "main($0); print \"=\" r }\n"); spit(b + ".in", in); std::string err; int r = sh("LC_ALL=C timeout 60 mawk -f " + b + ".awk " + b + ".in >" + b + ".out", &err); std::string o = slurp(b + ".out"); for (const char *e : { ".awk", ".in", ".out" }) unlink((b + e).c_str()); H.counters["compilations"]++;
	if (r) { fail(f, "compile", err); left--; continue; } size_t p = 0; for (auto &s : ss) { size_t e = o.find('\n', p); if (e == std::string::npos || o[p] != '=') { fail(f, "run", "answers end early"); break; } std::string l = o.substr(p + 1, e - p - 1); p = e + 1; Ans g = { !(l.empty() || l == "0"), {}, f.ambig != AMBIG_NONE };
		if (f.ambig == AMBIG_NONE && l != "0" && l != "1") { fail(f, "", "returned " + l); break; } if (f.ambig != AMBIG_NONE) { int q = dfa_run(f.c->a, f.c->t, s); if (q >= 0 && f.c->a.s[q].end && *f.c->a.s[q].ids.begin() == 0 && (f.ambig != AMBIG_MULTIPLE || f.c->a.s[q].ids.size() == 1)) continue; char *x = &l[0]; while (*x) { g.ids.insert(strtoul(x, &x, 10)); if (*x == ',') x++; else if (*x) { g.ids.insert(9999); break; } } } if (!judge(f, s, g)) break; } } }
// bash: each string is given to a subshell on its standard input
static void bash() { int left = 3; for (auto &f : fns) if (f.lang == SH && left > 0) {
	std::string b = dir + fmt("/h%d", seq++), in; std::vector<std::string> ss; suite(*f.c, f, false, [&](const std::string &s) { if (can(f, s)) { ss.push_back(s); in += s + "\n"; } return true; }); H.states += f.c->a.n();
	spit(b + ".sh", f.src); spit(b + ".in", in); spit(b + ".run", "matched() { echo match \"$@\"; exit 0; }\nreadonly -f matched\nwhile IFS= read -r v_; do ( " + std::string(f.id % 3 == 0 ? "" : f.id % 3 == 1 ? "unset LC_ALL; LC_CTYPE=C.UTF-8; LC_COLLATE=C.UTF-8;" : "LC_ALL=C.UTF-8;") + " . ./" + b + ".sh ) 2>>" + b + ".e < <(printf %s \"$v_\"); echo \"=$?\"; done <" + b + ".in >" + b + ".out\n");
	std::string err; int r = sh(std::string("LC_ALL=C") + " timeout 100 bash --norc " + b + ".run && bash -n " + b + ".sh", &err); std::string o = slurp(b + ".out"), es = slurp(b + ".e"); for (const char *e : { ".sh", ".in", ".out", ".run", ".e" }) unlink((b + e).c_str()); H.counters["compilations"]++;
	if (r) { fail(f, "compile", err); left--; continue; } { std::string k; size_t p = 0; while (p < es.size()) { size_t e = es.find('\n', p); std::string l = es.substr(p, e - p); p = e == std::string::npos ? es.size() : e + 1; if (l.find("readonly") == std::string::npos && l.find("null byte") == std::string::npos) { k = l; break; } } if (!k.empty()) { fail(f, "stderr", k); left--; continue; } }
	size_t p = 0; auto line = [&]() -> std::string { size_t e = o.find('\n', p); if (e == std::string::npos) { p = o.size(); return "?"; } std::string l = o.substr(p, e - p); p = e + 1; return l; };
	for (auto &s : ss) { std::string l = line(), st = line(); Ans g = { -1, {}, false }; if (l == "fail" && st == "=1") g.ok = 0; else if (l.compare(0, 5, "match") == 0 && st == "=0") { g.ok = 1; if (l.size() > 6) { g.haveids = true; char *x = &l[6]; while (*x) { char *y; unsigned long n = strtoul(x, &y, 10); if (y == x) { g.ids.insert(9999); break; } g.ids.insert(n); x = y; while (*x == ' ') x++; } } } if (!judge(f, s, g)) { break; } } } }
static void flush() { if (fns.empty()) return; for (int l : { LLVM, ATT, NASM, RUST, VMOPS }) compiled(l); golang(); awk(); bash(); fns.clear(); cases.clear(); pbytes = 0; }
static std::string print(struct fsm *f, const struct fsm_options &o, const struct fsm_hooks *h, int lang, int &r, int &er) { char *p = nullptr; size_t n = 0; FILE *m = open_memstream(&p, &n); errno = 0; r = fsm_print(m, f, &o, h, (enum fsm_print_lang) lang); er = errno; fclose(m); std::string s(p, n); free(p); return s; }
static int hk_args(FILE *f, const struct fsm_options *, void *, void *) { fprintf(f, "extra int"); return 0; } // only Go, of these languages, has it
static bool emit(Case *c, struct fsm *f, int lang, int io, int ambig, bool comments, bool hex, bool frag, bool ranges) {
	static const struct fsm_options zero = {}; struct fsm_options o = zero; Fn fn; fn.c = c; fn.id = nfn++; fn.lang = lang; fn.io = io; fn.ambig = ambig; fn.pre = fmt("%s%lld_", lang == GO || lang == GOASM ? "F" : "f", (long long) fn.id); fn.frag = frag;
	fn.opts = fmt("%s%s%s%s", ambig == AMBIG_EARLIEST ? " earliest" : ambig == AMBIG_ERROR ? " error" : ambig == AMBIG_MULTIPLE ? " multiple" : "", comments ? " comments" : "", hex ? " hex" : "", frag ? " fragment" : "");
	o.prefix = fn.pre.c_str(); if (lang == GO) o.package_prefix = "t"; o.io = (enum fsm_io) io; o.ambig = (enum fsm_ambig) ambig; o.comments = comments; o.always_hex = hex; o.fragment = frag; o.case_ranges = ranges; int r, er;
	bool sup = lang == GO || lang == GOASM || lang == VMOPS ? io != GETC : lang == ATT || lang == NASM ? io == PAIR : lang == AWK || lang == SH ? io == STR : true; if ((lang == ATT || lang == NASM || lang == GOASM) && ambig != AMBIG_NONE) sup = false;
	if (lang == VMOPS) { if (!sup) return true; for (int l : { FSM_PRINT_VMOPS_H, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_MAIN }) { fn.src += print(f, o, nullptr, l, r, er); if (r) { fail(fn, "print", fmt("fsm_print returned %d, errno %d", r, er)); return false; } } }
	else { struct fsm_hooks hk; memset(&hk, 0, sizeof hk); if (lang == GO && !frag && fn.id % 5 == 0) { hk.args = hk_args; fn.args = true; fn.opts += " args"; } fn.src = print(f, o, fn.args ? &hk : nullptr, lcode[lang], r, er); if (!sup) { if (r != -1 || er != ENOTSUP) fail(fn, "print", fmt("fsm_print for something unsupported returned %d, errno %d", r, er)); return true; } if (r) { fail(fn, "print", fmt("fsm_print returned %d, errno %d", r, er)); return false; } }
	if (frag && lang == GO) fn.src = std::string("package tfsm\n") + (ambig == AMBIG_MULTIPLE ? "" : "") + "func " + fn.pre + "Match(data " + (io == STR ? "string" : "[]byte") + ") bool {\n" + fn.src + "}\n";
	if (frag && lang == RUST) fn.src = "pub fn " + fn.pre + "main(" + (io == GETC ? "mut bytes: impl Iterator<Item = u8>" : io == STR ? "input: &str" : "input: &[u8]") + ") -> " + (ambig == AMBIG_NONE ? "Option<()>" : ambig == AMBIG_MULTIPLE ? "Option<&'static [u32]>" : "Option<u32>") + " {\nuse Label::*;\n" + fn.src + "}\n";
	pbytes += fn.src.size(); fns.push_back(fn); return true;
}
static const int IOS[NL][3] = { { GETC, STR, PAIR }, { PAIR, PAIR, PAIR }, { PAIR, PAIR, PAIR }, { STR, PAIR, STR }, { STR, PAIR, PAIR }, { GETC, STR, PAIR }, { STR, STR, STR }, { STR, STR, STR }, { STR, PAIR, PAIR } };
static int only = -1;
static void run(Nfa a, const std::string &name, int len, int kind, int skip = 0) {
	Nfa shown = a; auto d = [=] { return name.empty() ? shown.str() : name; }; int64_t i = H.idx;
	{ bool any = false; for (auto &s : a.s) if (!s.ids.empty()) any = true; if (!any) assign_ids(a, 1 + i % 5); for (auto &s : a.s) { s.eager.clear(); if (s.end && s.ids.empty()) s.ids.insert(7); if (!s.end) s.ids.clear(); } }
	if (!H.begin(d)) return; struct fsm *f = build(a); if (a.start < 0) for (auto &s : a.s) s.end = false;
	if (!is_dfa_shape(shown) && a.start >= 0) { static const struct fsm_options zero = {}; for (int l = 0; l < NL; l++) { struct fsm_options o = zero; o.io = (enum fsm_io) IOS[l][1]; int r, er; std::string s = print(f, o, nullptr, lcode[l], r, er); if (r != -1 || er != EINVAL || !s.empty()) H.fail("nfa", fmt("printing %s for a machine that isn't a DFA: %d, errno %d, %zu bytes", lnm[l], r, er, s.size())); } fsm_free(f); return; }
	H.nontrivial++; cases.emplace_back(new Case{ i, d, a, dfa_table(a), {}, {} }); Case *c = cases.back().get(); if (len > 0) { unsigned char rc[256]; auto reps = table_classes(c->t, rc); all_strings(reps, len, [&](const std::string &s) { c->ss.push_back(s); return c->ss.size() < 300; }); }
	std::string before = extract(f).str(); int64_t r = i * 7 + i / 3; static const int am[3] = { AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE }; bool ok = true;
	for (int l = 0; l < NL && ok; l++) { if (only >= 0 && only != l) continue; if (skip >> l & 1) continue; bool noids = l == ATT || l == NASM || l == GOASM;
		if (kind == 1) { for (int io = 0; io < 3 && ok; io++) for (int m = 0; m < 3 && ok; m++) for (int k = 0; k < 4 && ok; k++) { if (l == SH && !T && (k ^ m) & 1) continue; ok = emit(c, f, l, io, am[m], k & 1, k >> 1, false, m == 1); if (k == 0 && (l == RUST || (l == GO && m == 0 && io > 0) || (l == AWK && io == STR)) && ok) ok = emit(c, f, l, io, am[m], false, false, true, false); } }
		else if (kind == 3) { if (noids || ((l == SH || l == AWK) && i % (l == SH ? 7 : 3))) continue; for (int m = 0; m < 3 && ok; m++) { r++; ok = emit(c, f, l, IOS[l][r % 3], am[m], r / 2 % 3 == 0, r / 5 % 3 == 0, l == RUST && r % 11 == 0, r / 7 % 5 == 0); } }
		else { if ((l == SH || l == AWK) && !T && kind != 2 && i % 3) continue; if (l == SH && !T && kind == 2 && i % 2) continue; r++; ok = emit(c, f, l, IOS[l][r % 3], noids ? AMBIG_NONE : am[r / 3 % 3], r / 2 % 3 == 0, r / 5 % 3 == 0, l == RUST && r % 11 == 0, r / 7 % 5 == 0); } }
	if (ok && a.start >= 0) { bool conf = false; for (auto &s : a.s) if (s.end && s.ids.size() > 1) conf = true; if (!conf) { int l = (int[]) { LLVM, GO, RUST, AWK, SH, VMOPS }[i % 6]; if (only < 0 && !(skip >> l & 1)) ok = emit(c, f, l, IOS[l][i / 6 % 3], AMBIG_ERROR, i % 3 == 0, i % 5 == 0, false, false); } }
	if (extract(f).str() != before) H.fail("changed", "printing changed the machine"); fsm_free(f); if (fns.size() > (size_t) (T ? 4000 : 1500) || pbytes > (32u << 20) || H.only >= 0) flush();
}
static Nfa big(int n, int w, int kind) { Nfa a; for (int i = 0; i < n; i++) a.add(i % 7 * (i % 11) % 5 < 2); a.start = kind % 3 == 1 ? n / 2 : 0;
	for (int i = 0; i < n; i++) { std::map<int, Bytes> m; for (int c = 0; c < 256; c++) { int to; if (kind == 0) to = (i * 31 + (c * w / 256) * 57 + (c >> 1 & 1)) % n; else if (kind == 1) to = c % 2 ? -1 : (i + 1 + c * w / 256) % n; else to = c == 0 ? (i + 1) % n : (i + (c * w / 256) * (n / 7 + 1)) % n; if (to >= 0) m[to].set(c); } for (auto &x : m) a.set(i, x.first, x.second); }
	return a; }
int main(int argc, char **argv) {
	H.init(argc, argv); T = H.thorough; if (H.arg.count("lang")) only = atoi(H.arg["lang"].c_str()); char tn[] = "gx-XXXXXX"; if (!mkdtemp(tn)) { perror("mkdtemp"); return 2; } dir = tn; { char *w = getcwd(nullptr, 0); setenv("TMPDIR", (std::string(w) + "/" + tn).c_str(), 1); free(w); }
	CLANG = system("command -v clang-18 >/dev/null 2>&1") == 0 ? "clang-18" : "clang";
	size_t pg = 4096; guard = (char *) mmap(nullptr, GN + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(guard + GN, pg, PROT_NONE);
	{ // how LLVM IR is called
	std::string s; for (int io = 0; io < 3; io++) for (int m = 0; m < 3; m++) { std::string t = m == 0 ? "i1" : m == 1 ? "{ i1, i32 }" : "{ ptr, i64 }", call = "%r = call " + t + " %f(" + (io == GETC ? "ptr %x, ptr %y" : io == STR ? "ptr %x" : "ptr %x, ptr %y") + ")\n"; s += fmt("define i64 @w_%s_%d(ptr %%f, ptr %%x, ptr %%y, ptr %%id, ptr %%ids) {\n", ion[io], m) + call; if (m == 0) s += "%z = zext i1 %r to i64\nret i64 %z\n"; else if (m == 1) s += "%o = extractvalue { i1, i32 } %r, 0\nbr i1 %o, label %a, label %b\na:\n%v = extractvalue { i1, i32 } %r, 1\nstore i32 %v, ptr %id\nret i64 1\nb:\nret i64 0\n"; else s += "%n = extractvalue { ptr, i64 } %r, 1\n%c = icmp eq i64 %n, -1\nbr i1 %c, label %b, label %a\na:\n%v = extractvalue { ptr, i64 } %r, 0\nstore ptr %v, ptr %ids\nret i64 %n\nb:\nret i64 -1\n"; s += "}\n"; }
	spit(dir + "/w.ll", s); std::string err; if (sh(CLANG + " -w -shared -fPIC -x ir " + dir + "/w.ll -o " + dir + "/w.so", &err) || !dlopen(("./" + dir + "/w.so").c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "wrapper: %s\n", err.c_str()); return 2; } unlink((dir + "/w.ll").c_str()); unlink((dir + "/w.so").c_str()); }
	auto done = [&] { flush(); rmtree(dir + "/gocache"); int r = system(("chmod -R u+w ./" + dir + " 2>/dev/null; rm -rf -- ./" + dir).c_str()); (void) r; return H.finish(); };
	if (H.arg.count("ids")) { enum_ids([&](const Nfa &a, const std::string &n) { run(a, n, a.n() > 3 ? 1 : 3, 3); }, T ? 3 : 11); return done(); }
	enum_dfas(1, 2, [&](const Nfa &a) { run(a, "", 3, T || H.idx % 5 == 0); }); enum_dfas(2, 2, [&](const Nfa &a) { if (!T && H.idx % 5) return; run(a, "", 3, T && H.idx % 7 == 0, T ? 0 : 1 << SH); }); enum_dfas(3, 2, [&](const Nfa &a) { if (H.idx % (T ? 5 : 101)) return; run(a, "", 3, 0, T ? 0 : 1 << SH); }, true);
	enum_nfas(2, 1, 1, true, [&](const Nfa &a) { if (a.start >= 0 && is_dfa_shape(a)) return; if (!T && H.idx % 3) return; run(a, "", 2, 0); });
	{ Nfa a; if (H.take()) run(a, "no states", 0, 1); a.add(true); a.start = -1; if (H.take()) run(a, "no start", 0, 1); a.add(false); a.start = 1; if (H.take()) run(a, "no transitions, an end elsewhere", 0, 1); a.start = 0; if (H.take()) run(a, "no transitions, an end", 0, 1); a.set(1, 1, BR(0, 255)); if (H.take()) run(a, "an end, and a loop elsewhere", 0, 1); a.set(0, 0, BR(0, 255)); if (H.take()) run(a, "accepts everything, with states besides", 2, 1); Nfa b; b.add(true); b.start = 0; b.set(0, 0, BR(0, 255)); if (H.take()) run(b, "accepts everything", 2, 1); b.s[0].end = false; if (H.take()) run(b, "accepts nothing", 2, 1); }
	// each byte: alone, as a bound, and in examples
	for (int c = 0; c < 256; c++) for (int k = 0; k < 4; k++) { if (H.stop()) break; if (!H.take()) continue; if (!T && k != c % 4 && (c > 32 && c < 127 ? isalnum(c) : c > 33 && c < 126)) continue; if (!T && k != c % 4 && (k + c) % 3) continue; Nfa a; a.add(false); a.add(k == 2); a.add(true); a.start = 0; a.set(0, 1, B1(c)); if (k == 0) { if (c < 255) a.set(0, 2, BR(c + 1, 255)); } else if (k == 1) { if (c > 0) a.set(0, 2, BR(0, c - 1)); a.set(1, 2, BR(c, 255)); } else if (k == 2) a.set(1, 2, BR(0, c)); else { a.set(1, 2, B1(c)); a.set(2, 2, ~B1(c)); } run(a, fmt("byte %d, %d", c, k), 0, 2); }
	{ std::vector<int> cut = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256 };
	  for (size_t i = 0; i < cut.size(); i++) for (size_t j = i; j < cut.size(); j++) for (size_t k = j; k < cut.size(); k++) for (int x = 0; x < 256; x++) { if (H.stop()) break; if (!H.take()) continue; if (H.idx % (T ? 97 : 1009)) continue; int to[4] = { x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6 & 3 }; Nfa a; a.add(x % 5 == 0); a.add(false); a.add(true); a.start = 0; Bytes m[3]; for (int c = 0; c < 256; c++) { int p = (c >= cut[i]) + (c >= cut[j]) + (c >= cut[k]); if (to[p] < 3) m[to[p]].set(c); } for (int q = 0; q < 3; q++) if (m[q].any()) a.set(0, q, m[q]); a.set(1, 2, BR(x, 255)); a.set(2, x % 3, B1(x)); run(a, "", 0, 0); } }
	for (int n = 1; n <= 256; n++) for (int v = 0; v < 4; v++) { if (!T && n > 4 && n < 254 && n % 64 > 1) continue; if (H.stop()) break; if (!H.take()) continue; if (!T && (n + v) % 2 && n > 4) continue; Nfa a; for (int i = 0; i < n + 1; i++) a.add(i % 2 == 0); a.start = v & 1 ? n : 0; for (int c = 0; c < 256; c++) { int to = v < 2 ? c % n : c * n / 256; if (v == 3 && c % 7 == 0) continue; a.set(a.start, (to + (v & 1)) % (n + 1), B1(c)); } for (int i = 0; i < n; i++) if (i != a.start) a.set(i, ((i | 1) + 1) % (n + 1) / 2 * 2, B1(i & 255)); if (is_dfa_shape(a)) run(a, fmt("%d targets, kind %d", n, v), 0, 0, 1 << SH | (n > 100 ? 1 << AWK : 0)); }
	enum_families([&](const Nfa &a0, const std::string &n) { if (!T && H.idx % 3) return; Nfa a = is_dfa_shape(a0) ? a0 : ref_trim(ref_dfa(a0, 600)); if (a.n() == 0) return; run(a, n, 0, 0, a.n() > 12 ? 1 << SH : 0); }, T ? 150 : 30, false, 1);
	for (int k = 0; k < 3; k++) for (int n : { 40, T ? 250 : 90 }) for (int w : { 8, 60, 256 }) { if (H.stop()) break; if (!H.take()) continue; if (!T && (n > 40) != (w > 60)) continue; run(big(n, w, k), fmt("%d states, width %d, kind %d", n, w, k), 0, 0, 1 << SH | (n > 40 || w > 60 ? 1 << AWK | 1 << RUST : 0)); }
	return done();
}
