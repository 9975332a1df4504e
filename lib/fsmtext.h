// An independent reader of the .fsm format.
#pragma once
#include "ref.h"
struct Doc { bool ok = false, odd = false, viable = false; Nfa a; };
enum { T_EOF, T_ID, T_TO, T_ANY, T_SEP, T_COMMA, T_START, T_END, T_EQ, T_OPEN, T_CLOSE, T_ENDID, T_CHAR, T_BAD };
struct Tok { int t; std::string s; unsigned long long v = 0; };
static inline std::vector<Tok> lex(const std::string &d, bool *odd) {
	std::vector<Tok> v; size_t i = 0, n = d.size(); bool zone = false; auto bad = [&]() { v.push_back({T_BAD}); return v; };
	auto id = [](char c) { return isalnum((unsigned char) c) && (unsigned char) c < 128 || c == '_'; };
	while (i < n) { char c = d[i];
		if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { i++; continue; }
		if (c == '#') { while (i < n && d[i] != '\n') i++; if (i == n) *odd = true; i++; continue; } // nothing says what an unterminated comment or label is
		if (zone) { if (isdigit((unsigned char) c)) { Tok t{T_ENDID}; bool over = false; while (i < n && isdigit((unsigned char) d[i])) { if (t.v < (1ULL << 40)) t.v = t.v * 10 + (d[i] - '0'); i++; } if (t.v > 0xffffffffULL) return bad(); v.push_back(t); continue; } if (c == ',') { v.push_back({T_COMMA}); i++; continue; } if (c == ']') { zone = false; v.push_back({T_CLOSE}); i++; continue; } return bad(); }
		if (id(c)) { size_t j = i; while (j < n && id(d[j])) j++; std::string s = d.substr(i, j - i); if (j < n && d[j] == ':' && (s == "start" || s == "end")) { v.push_back({s == "start" ? T_START : T_END}); i = j + 1; } else { v.push_back({T_ID, s}); i = j; } continue; }
		if (c == '-') { if (i + 1 < n && d[i + 1] == '>') { v.push_back({T_TO}); i += 2; continue; } return bad(); }
		if (c == '?') { v.push_back({T_ANY}); i++; continue; } if (c == ';') { v.push_back({T_SEP}); i++; continue; } if (c == ',') { v.push_back({T_COMMA}); i++; continue; } if (c == '=') { v.push_back({T_EQ}); i++; continue; } if (c == '[') { v.push_back({T_OPEN}); zone = true; i++; continue; }
		if (c == '\'') { if (i + 2 < n && d[i + 2] == '\'' && d[i + 1] != '\'') { Tok t{T_CHAR}; t.v = (unsigned char) d[i + 1]; v.push_back(t); i += 3; continue; } if (i + 1 == n) { *odd = true; break; } return bad(); }
		if (c == '"') { size_t j = i + 1; if (j >= n) { *odd = true; break; } Tok t{T_CHAR}; if (d[j] == '"') return bad(); if (d[j] != '\\') { t.v = (unsigned char) d[j]; j++; }
			else { j++; if (j >= n) return bad(); char e = d[j]; const char *from = "\\\"fnrtv", *to = "\\\"\f\n\r\t\v"; const char *p = e ? strchr(from, e) : nullptr; if (p) { t.v = (unsigned char) to[p - from]; j++; }
				else if (e >= '0' && e <= '7') { unsigned long long x = 0; while (j < n && d[j] >= '0' && d[j] <= '7') { if (x < 4096) x = x * 8 + (d[j] - '0'); j++; } if (x > 255) return bad(); t.v = x; }
				else if (e == 'x' && j + 1 < n && isxdigit((unsigned char) d[j + 1])) { unsigned long long x = 0; j++; while (j < n && isxdigit((unsigned char) d[j])) { char h = tolower(d[j]); if (x < 4096) x = x * 16 + (h <= '9' ? h - '0' : h - 'a' + 10); j++; } if (x > 255) return bad(); t.v = x; }
				else t.v = '\\'; }
			if (j < n && d[j] == '"') { v.push_back(t); i = j + 1; continue; } return bad(); }
		return bad(); }
	v.push_back({T_EOF}); return v;
}
static inline void fsm_read(const std::string &d, Doc &o) {
	 auto v = lex(d, &o.odd); size_t i = 0; struct V { Doc &o; std::vector<Tok> &v; size_t &i; ~V() { o.viable = v[i].t == T_EOF; } } vv{o, v, i}; std::map<std::string, int> names; auto st = [&](const std::string &s) { auto it = names.emplace(s, (int) o.a.n()); if (it.second) o.a.s.resize(o.a.n() + 1); return it.first->second; };
	auto is = [&](int t) { return v[i].t == t; }; o.a.start = -1;
	while (is(T_ID)) { std::string a = v[i++].s; if (is(T_SEP)) { i++; st(a); continue; } if (!is(T_TO)) return; i++; if (!is(T_ID)) return; std::string b = v[i++].s; int x = st(a), y = st(b);
		if (is(T_CHAR)) { Bytes c; c.set(v[i++].v); o.a.s[x].e.push_back({c, y}); } else if (is(T_ANY)) { i++; Bytes c; c.set(); o.a.s[x].e.push_back({c, y}); } else { o.a.s[x].eps.push_back(y); } if (!is(T_SEP)) return; i++; }
	if (is(T_START)) { i++; if (!is(T_ID)) return; std::string a = v[i++].s; if (!is(T_SEP)) return; i++; o.a.start = st(a); }
	if (is(T_END)) { i++; for (;;) { if (!is(T_ID)) return; int s = st(v[i++].s); o.a.s[s].end = true; if (is(T_EQ)) { i++; if (!is(T_OPEN)) return; i++; if (is(T_ENDID)) for (;;) { if (!is(T_ENDID)) return; o.a.s[s].ids.insert(v[i++].v); if (!is(T_COMMA)) break; i++; } if (!is(T_CLOSE)) return; i++; } if (is(T_COMMA)) { i++; continue; } break; } if (!is(T_SEP)) return; i++; }
	o.ok = is(T_EOF); return;
}
// writes a machine; labels in hex
static inline std::string fsm_write(const Nfa &a) {
	std::string o; for (size_t i = 0; i < a.n(); i++) o += fmt("%zu;", i); o += "\n";
	for (size_t i = 0; i < a.n(); i++) { for (auto &e : a.s[i].e) { if (e.first.all()) { o += fmt("%zu -> %d ?;\n", i, e.second); continue; } for (int c = 0; c < 256; c++) if (e.first[c]) o += fmt("%zu -> %d \"\\x%02x\";\n", i, e.second, c); } for (int t : a.s[i].eps) o += fmt("%zu -> %d;\n", i, t); }
	if (a.start >= 0) o += fmt("start: %d;\n", a.start); std::string e; for (size_t i = 0; i < a.n(); i++) if (a.s[i].end) { e += fmt("%s%zu", e.empty() ? "" : ", ", i); if (!a.s[i].ids.empty()) { e += " = ["; bool f = true; for (auto x : a.s[i].ids) { e += fmt("%s%llu", f ? "" : ", ", (unsigned long long) x); f = false; } e += "]"; } }
	if (!e.empty()) o += "end: " + e + ";\n"; return o;
}
