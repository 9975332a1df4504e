// P28: group interpolation substitutes exactly and never overruns.
#include "ref.h"
extern "C" {
#include <re/re.h>
#include <re/groups.h>
}
#include <sys/mman.h>
static char *page; // ends at an unreadable page
static const size_t PG = 1 << 16;
struct Ref { bool ok; std::string out; size_t at, end; };
// the header's rules, from left to right
static Ref ref(const std::string &f, char esc, const std::string &g0, const std::vector<std::string> &g, const char *non) {
	Ref r; r.ok = true; r.at = r.end = 0;
	for (size_t i = 0; i < f.size();) {
		if (f[i] != esc) { r.out += f[i++]; continue; }
		size_t a = i++;
		if (i < f.size() && f[i] == esc) { r.out += esc; i++; continue; }
		size_t d = i; while (d < f.size() && f[d] >= '0' && f[d] <= '9') d++;
		if (d == i) { r.ok = false; r.at = a; r.end = i; return r; }
		size_t z = i; while (z + 1 < d && f[z] == '0') z++;
		std::string num = f.substr(z, d - z); long n = num.size() > 9 ? 1000000000 : atol(num.c_str());
		if (n == 0) r.out += g0; else if (n <= (long) g.size()) r.out += g[n - 1]; else if (non) r.out += non; else { r.ok = false; r.at = a; r.end = d; return r; }
		i = d;
	}
	return r;
}
static void one(const std::string &f, char esc, const std::string &g0, const std::vector<std::string> &g, const char *non) {
	if (!H.begin([&] { std::string o = "fmt " + show(f) + " esc " + show(std::string(1, esc)) + fmt(" %zu groups, nonexistent %s", g.size(), non ? non : "NULL"); return o; })) return;
	Ref w = ref(f, esc, g0, g, non); if (w.ok) H.nontrivial++;
	std::vector<const char *> v; for (auto &x : g) v.push_back(x.c_str());
	char *fs = page + PG - f.size() - 1; memcpy(fs, f.c_str(), f.size() + 1); // reading past the terminator faults
	static char buf[8192];
	size_t need = w.out.size() + 1;
	for (long outn = -1; outn <= (long) need + 2; outn++) {
		if (need > 64 && outn > 8 && outn + 8 < (long) need && outn % 37) continue;
		for (int pos = 0; pos < 2; pos++) {
			H.evals++;
			struct re_pos s, e; memset(&s, 0xa5, sizeof s); memset(&e, 0xa5, sizeof e); s.byte = e.byte = 987654;
			char *outs = outn < 0 ? nullptr : buf + 16; size_t n = outn < 0 ? 0 : outn;
			memset(buf, '#', n + 40);
			bool r = re_interpolate_groups(fs, esc, g0.c_str(), g.size(), v.data(), non, outs, n, pos ? &s : nullptr, pos ? &e : nullptr);
			for (size_t i = 0; i < 16; i++) if (buf[i] != '#' || buf[16 + n + i] != '#') { H.fail("overrun", fmt("outn %ld: a byte outside the buffer was written", outn)); break; }
			bool fits = outn < 0 || n >= need;
			if (r != (w.ok && fits)) { H.fail("result", fmt("outn %ld: returned %d, expected %d", outn, r, w.ok && fits)); return; }
			if (r) { if (outs && (memcmp(outs, w.out.data(), w.out.size()) || outs[w.out.size()])) { outs[n - 1] = 0; H.fail("output", fmt("outn %ld: gave ", outn) + show(outs) + ", expected " + show(w.out)); return; } }
			else if (pos) {
				bool over = outn >= 0 && n < need; // blames the whole text if what comes before the error does not fit
				bool syn = !w.ok && s.byte == w.at && e.byte >= w.end && e.byte <= f.size() && e.byte <= w.end + 1;
				bool ovf = over && s.byte == 0 && e.byte <= f.size();
				if (!w.ok && outn >= 0 && n >= w.out.size()) ovf = false;
				if (!syn && !ovf) { H.fail("position", fmt("outn %ld: error reported at %zu to %zu of %zu, expected from %zu", outn, s.byte, e.byte, f.size(), w.ok ? (size_t) 0 : w.at)); return; }
			}
			if (strcmp(fs, f.c_str())) H.fail("format", "the format was changed");
		}
	}
}
int main(int argc, char **argv) {
	H.init(argc, argv);
	bool lite = H.arg.count("lite"), T = H.thorough && !lite, ok = true;
	page = (char *) mmap(nullptr, PG + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + PG, 4096, PROT_NONE);
	std::vector<std::vector<std::string>> G = { {}, { "A" }, { "", "BCD" }, { "\\2", "$1", "x" } };
	const char *N[] = { nullptr, "", "xy" };
	auto go = [&](const std::string &f, char esc, size_t gi, int ni, const std::string &g0) { if (!ok) return; if (H.stop()) { ok = false; return; } if (!H.take()) return; one(f, esc, g0, G[gi], N[ni]); };
	// (1) every format over the metacharacters
	std::string al = "\\$0129a"; std::vector<unsigned char> a(al.begin(), al.end());
	all_strings(a, T ? 7 : lite ? 4 : 5, [&](const std::string &f) {
		for (size_t gi = 0; gi < G.size(); gi++) for (int ni = 0; ni < 3; ni++) go(f, '\\', gi, ni, gi % 2 ? "zero" : "");
		return ok; });
	al = "$\\01{"; a.assign(al.begin(), al.end());
	all_strings(a, T ? 7 : lite ? 4 : 6, [&](const std::string &f) { go(f, '$', f.size() % 4, f.size() % 3, "\\0"); go(f, '$', (f.size() + 1) % 4, (f.size() + 1) % 3, "$$"); return ok; });
	// (2) every byte as the escape, and as other text, in several places
	for (int e = 1; e < 256; e++) if (!isdigit(e)) for (int b = 1; b < 256; b++) {
		if (!T && e != '\\' && e != '$' && e != 0xff && b != e && b != '0' && b != '9' && b != '/' && b != ':' && b != '1' + e % 3 && b != 'a') continue;
		char E = e, B = b;
		for (auto f : { std::string{ E, B }, std::string{ B }, std::string{ E, '1', B }, std::string{ B, E, '0', B, E, E, B } }) go(f, E, (e + b) % 4, b % 3, "whole");
	}
	// (3) numbers of any length, and about the number of groups
	for (size_t many : { 0, 1, 9, 10, 11, 99, 100, 255, 256, 429, 1000 }) {
		std::vector<std::string> g; for (size_t i = 0; i < many; i++) g.push_back(i % 7 == 3 ? "" : fmt("<%zu>", i + 1));
		for (int z = 0; z < 3; z++) for (int ni = 0; ni < 3; ni++) {
			auto num = [&](std::string d) { if (ok && H.stop()) ok = false; if (ok && H.take()) one("p\\" + std::string(z * z * 7, '0') + d + "q\\1", '\\', "<0>", g, N[ni]); };
			for (size_t i = 0; i <= many + 2; i++) num(std::to_string(i));
			for (auto d : { "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967306", "42949672970", "42949672961", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999", "10000000000000000000000000000001" }) num(d);
			for (uint64_t w = 1; w < 12; w++) for (size_t k : { (size_t) 0, (size_t) 1, many }) num(std::to_string((w << 32) + k));
		}
	}
	// (4) long formats
	for (int n = 0; n <= 600; n += n < 40 ? 1 : 37) for (auto u : { "a", "\\\\", "\\0", "\\1", "\\2x", "\\9" }) { std::string f; for (int i = 0; i < n; i++) f += u; go(f, '\\', n % 4, n % 3, "0"); }
	return H.finish();
}
