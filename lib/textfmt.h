// Independent readers for the descriptive output formats: JSON, dot, and the labels they carry.
#pragma once
#include "ref.h"
struct Js { enum { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL; double n = 0; bool b = false; std::vector<unsigned> s; /* code points */ std::vector<Js> a; std::vector<std::pair<std::string, Js>> o;
	const Js *get(const char *x) const { const Js *r = nullptr; for (auto &p : o) if (p.first == x) { if (r) return nullptr; r = &p.second; } return r; } std::string str() const { std::string r; for (unsigned c : s) r += c < 128 ? (char) c : '?'; return r; } };
struct JsonReader { const std::string &t; size_t i = 0; std::string err; JsonReader(const std::string &x) : t(x) {} bool bad(const char *w) { if (err.empty()) err = fmt("%s at byte %zu", w, i); return false; } void ws() { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) i++; }
	bool str(std::vector<unsigned> &o) { if (i >= t.size() || t[i] != '"') return bad("expected a string"); i++; for (;;) { if (i >= t.size()) return bad("unterminated string"); unsigned char c = t[i]; if (c == '"') { i++; return true; } if (c < 32) return bad("control character in a string"); if (c >= 128) { int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc2 ? 1 : -1; if (n < 0 || i + n >= t.size()) return bad("invalid UTF-8"); unsigned v = c & (0x3f >> n); for (int k = 1; k <= n; k++) { if ((t[i + k] & 0xc0) != 0x80) return bad("invalid UTF-8"); v = v << 6 | (t[i + k] & 0x3f); } o.push_back(v); i += n + 1; continue; }
			if (c != '\\') { o.push_back(c); i++; continue; } i++; if (i >= t.size()) return bad("unterminated escape"); static const char *e = "\"\\/bfnrt"; static const char *d = "\"\\/\b\f\n\r\t"; const char *p = strchr(e, t[i]); if (t[i] && p) { o.push_back((unsigned char) d[p - e]); i++; } else if (t[i] == 'u') { unsigned v = 0; for (int k = 1; k <= 4; k++) { if (i + k >= t.size() || !isxdigit((unsigned char) t[i + k])) return bad("bad \\u escape"); v = v * 16 + (isdigit((unsigned char) t[i + k]) ? t[i + k] - '0' : (t[i + k] | 32) - 'a' + 10); } o.push_back(v); i += 5; } else return bad("unknown escape"); } }
	bool val(Js &v, int depth = 0) { ws(); if (depth > 50) return bad("too deep"); if (i >= t.size()) return bad("expected a value"); char c = t[i];
		if (c == '"') { v.k = Js::STR; return str(v.s); } if (c == '[') { v.k = Js::ARR; i++; ws(); if (i < t.size() && t[i] == ']') { i++; return true; } for (;;) { v.a.emplace_back(); if (!val(v.a.back(), depth + 1)) return false; ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == ']') { i++; return true; } return bad("expected , or ]"); } }
		if (c == '{') { v.k = Js::OBJ; i++; ws(); if (i < t.size() && t[i] == '}') { i++; return true; } for (;;) { ws(); Js k; if (!str(k.s)) return false; ws(); if (i >= t.size() || t[i] != ':') return bad("expected :"); i++; v.o.emplace_back(k.str(), Js()); if (!val(v.o.back().second, depth + 1)) return false; ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == '}') { i++; return true; } return bad("expected , or }"); } }
		if (c == '-' || isdigit((unsigned char) c)) { size_t j = i; if (t[j] == '-') j++; if (j >= t.size() || !isdigit((unsigned char) t[j])) return bad("bad number"); if (t[j] == '0' && j + 1 < t.size() && isdigit((unsigned char) t[j + 1])) return bad("leading zero"); while (j < t.size() && isdigit((unsigned char) t[j])) j++; if (j < t.size() && strchr(".eE", t[j]) && t[j]) return bad("not a whole number"); v.k = Js::NUM; v.n = atof(t.substr(i, j - i).c_str()); i = j; return true; }
		for (auto w : { "true", "false", "null" }) if (!t.compare(i, strlen(w), w)) { i += strlen(w); v.k = w[0] == 'n' ? Js::NUL : Js::BOOL; v.b = w[0] == 't'; return true; } return bad("expected a value"); }
	bool read(Js &v) { if (!val(v)) return false; ws(); if (i != t.size()) return bad("text after the value"); return true; } };

// labels: tokens each standing for one byte
typedef std::function<void(size_t, const std::function<void(int, size_t)> &)> LabTok; // every (byte, next position) at a position
static bool lab_set(const LabTok &tok, size_t n, const Bytes &want, size_t i, Bytes got, int &fuel, const std::function<bool(size_t)> &dash) { if (--fuel < 0) return false; if (i == n) return got == want; bool ok = false;
	tok(i, [&](int b, size_t j) { if (ok || !want[b]) return; if (j < n && dash(j)) tok(j + 1, [&](int b2, size_t k) { if (ok || b2 < b || k > n) return; Bytes g = got; for (int c = b; c <= b2; c++) { if (!want[c]) return; g.set(c); } ok = lab_set(tok, n, want, k, g, fuel, dash); }); if (ok || j > n) return; Bytes g = got; g.set(b); ok = lab_set(tok, n, want, j, g, fuel, dash); }); return ok; }
// does the label s (of n units, where at(i) is unit i if it is a plain character, else 0) describe the set? boxed: may be /./, [..] or [^..]
static bool lab_is(const LabTok &tok, size_t n, const std::function<int(size_t)> &at, const Bytes &want, bool boxed) {
	bool one = false; tok(0, [&](int b, size_t j) { if (j == n && want.count() == 1 && want[b]) one = true; }); if (one) return true; if (!boxed) return false; if (n == 3 && at(0) == '/' && at(1) == '.' && at(2) == '/') return want.all(); if (n < 2 || at(0) != '[' || at(n - 1) != ']') return false; int fuel = 200000; auto dash = [&](size_t i) { return at(i) == '-'; };
	if (lab_set(tok, n - 1, want, 1, Bytes(), fuel, dash)) return true; fuel = 200000; return n > 2 && at(1) == '^' && lab_set(tok, n - 1, ~want, 2, Bytes(), fuel, dash); }
static bool json_lab(const std::vector<unsigned> &s, const Bytes &want, bool boxed) { return lab_is([&](size_t i, const std::function<void(int, size_t)> &f) { if (i < s.size() && s[i] < 256) f(s[i], i + 1); }, s.size(), [&](size_t i) { return s[i] < 128 ? (int) s[i] : 0; }, want, boxed); }
// the text of a HTML-like label: entities decoded; false if it isn't well-formed
static bool html_text(const std::string &h, std::vector<unsigned> &o) { for (size_t i = 0; i < h.size();) { unsigned char c = h[i]; if (c == '<' || c == '>') return false; if (c == '&') { size_t e = h.find(';', i); if (e == std::string::npos) return false; std::string n = h.substr(i + 1, e - i - 1); if (n == "amp") o.push_back('&'); else if (n == "quot") o.push_back('"'); else if (n == "lt") o.push_back('<'); else if (n == "gt") o.push_back('>'); else if (n.size() > 2 && n[0] == '#' && n[1] == 'x') { char *q; unsigned v = strtoul(n.c_str() + 2, &q, 16); if (*q) return false; o.push_back(v); } else if (n.size() > 1 && n[0] == '#') { char *q; unsigned v = strtoul(n.c_str() + 1, &q, 10); if (*q) return false; o.push_back(v); } else return false; i = e + 1; continue; } if (c < 32 || c >= 127) return false; o.push_back(c); i++; } return true; }
// dot's labels use C escapes "for humans", and the open box for a space
static bool dot_lab(const std::string &h, const Bytes &want, bool boxed) { std::vector<unsigned> s; if (!html_text(h, s) || s.empty()) return false;
	return lab_is([&](size_t i, const std::function<void(int, size_t)> &f) { if (i >= s.size()) return; if (s[i] == 0x2423) { f(' ', i + 1); return; } if (s[i] >= 256) return; if (s[i] == '\\' && i + 1 < s.size()) { static const char *e = "abfnrtv", *d = "\a\b\f\n\r\t\v"; const char *p = s[i + 1] < 128 && s[i + 1] ? strchr(e, s[i + 1]) : nullptr; if (p) f(d[p - e], i + 2); if (s[i + 1] == 'x' && i + 3 < s.size() && s[i + 2] < 128 && s[i + 3] < 128 && isxdigit(s[i + 2]) && isxdigit(s[i + 3])) { char b[3] = { (char) s[i + 2], (char) s[i + 3], 0 }; f(strtol(b, nullptr, 16), i + 4); } } f(s[i], i + 1); }, s.size(), [&](size_t i) { return s[i] < 128 ? (int) s[i] : 0; }, want, boxed); }

// dot: statements of one (flat) digraph, or a fragment of one
struct DotSt { std::vector<std::string> node; /* one, or two for an edge; "node", "edge", "graph"; port kept after a colon */ std::vector<std::pair<std::string, std::string>> at; bool assign = false; }; // values keep their quotes: "..." or <...>
struct DotReader { const std::string &t; size_t i = 0; std::string err, tok; DotReader(const std::string &x) : t(x) {} bool bad(const char *w) { if (err.empty()) err = fmt("%s at byte %zu", w, i); return false; }
	bool next() { tok.clear(); for (;;) { while (i < t.size() && isspace((unsigned char) t[i])) i++; if (i < t.size() && t[i] == '#' && (i == 0 || t[i - 1] == '\n')) { while (i < t.size() && t[i] != '\n') i++; continue; } if (i + 1 < t.size() && t[i] == '/' && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == std::string::npos) return bad("unterminated comment"); i = e + 2; continue; } break; } if (i >= t.size()) return true; char c = t[i];
		if (isalpha((unsigned char) c) || c == '_') { while (i < t.size() && (isalnum((unsigned char) t[i]) || t[i] == '_')) tok += t[i++]; return true; } if (isdigit((unsigned char) c) || c == '.') { while (i < t.size() && (isdigit((unsigned char) t[i]) || t[i] == '.')) tok += t[i++]; if (i < t.size() && (isalpha((unsigned char) t[i]) || t[i] == '_')) return bad("a number runs into a name"); return true; } if (c == '"') { size_t e = i + 1; while (e < t.size() && t[e] != '"') e += t[e] == '\\' ? 2 : 1; if (e >= t.size()) return bad("unterminated string"); tok = t.substr(i, e + 1 - i); i = e + 1; return true; }
		if (c == '<') { size_t e = i; int d = 0; do { if (e >= t.size()) return bad("unterminated HTML"); if (t[e] == '<') d++; if (t[e] == '>') d--; e++; } while (d); tok = t.substr(i, e - i); i = e; if (tok == "<>") return bad("empty HTML label"); return true; } if (c == '-' && i + 1 < t.size() && t[i + 1] == '>') { tok = "->"; i += 2; return true; } if (strchr("{}[];,=:", c) && c) { tok = c; i++; return true; } return bad("unexpected character"); }
	static bool id(const std::string &s) { return !s.empty() && (isalnum((unsigned char) s[0]) || strchr("_.\"<", s[0])); }
	bool node(std::string &n) { if (!id(tok)) return bad("expected a name"); n = tok; if (!next()) return false; if (tok == ":") { if (!next()) return false; if (!id(tok)) return bad("expected a port"); n += ":" + tok; if (!next()) return false; } return true; }
	bool read(std::vector<DotSt> &o, bool frag) { if (!next()) return false; if (!frag) { if (tok != "digraph") return bad("expected digraph"); if (!next()) return false; if (tok != "{") { if (!id(tok)) return bad("expected a name"); if (!next()) return false; } if (tok != "{") return bad("expected {"); if (!next()) return false; }
		while (tok != (frag ? "" : "}")) { if (tok == ";") { if (!next()) return false; continue; } DotSt s; std::string n; if (!node(n)) return false; s.node.push_back(n); if (tok == "=") { if (!next()) return false; if (!id(tok)) return bad("expected a value"); s.assign = true; s.at.push_back({ n, tok }); if (!next()) return false; o.push_back(s); continue; } while (tok == "->") { if (!next() || !node(n)) return false; s.node.push_back(n); }
			while (tok == "[") { if (!next()) return false; while (tok != "]") { if (!id(tok)) return bad("expected an attribute"); std::string k = tok, v; if (!next()) return false; if (tok != "=") return bad("expected ="); if (!next()) return false; if (!id(tok)) return bad("expected a value"); s.at.push_back({ k, tok }); if (!next()) return false; if (tok == "," || tok == ";") { if (!next()) return false; if (!id(tok) && tok != "]") return bad("expected an attribute"); } } if (!next()) return false; } o.push_back(s); }
		if (!frag) { if (!next()) return false; if (!tok.empty()) return bad("text after the graph"); } return true; } };
