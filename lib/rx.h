// Regular expressions of our own: enumerated by size, printed as text, and read as reference automata with positions.
#pragma once
#include "ref.h"
#include <memory>
extern "C" {
#include <re/re.h>
}
struct Rx; typedef std::shared_ptr<const Rx> R;
enum { X_EMPTY, X_SET, X_CAT, X_ALT, X_REP, X_GRP, X_ANCH, X_STR };
enum { A_START, A_END, A_ENDNL };
struct Rx { int k; Bytes set; std::string txt; std::vector<R> c; int lo = 0, hi = 0; int type = 0; };
static inline R rx_empty() { auto x = std::make_shared<Rx>(); x->k = X_EMPTY; return x; }
static inline R rx_set(const Bytes &b, const std::string &t) { auto x = std::make_shared<Rx>(); x->k = X_SET; x->set = b; x->txt = t; return x; }
static inline R rx_anch(int a, const std::string &t) { auto x = std::make_shared<Rx>(); x->k = X_ANCH; x->type = a; x->txt = t; return x; }
static inline R rx_n(int k, std::vector<R> c) { auto x = std::make_shared<Rx>(); x->k = k; x->c = std::move(c); return x; }
static inline R rx_rep(R e, int lo, int hi) { auto x = std::make_shared<Rx>(); x->k = X_REP; x->c = {e}; x->lo = lo; x->hi = hi; return x; }
static inline R rx_grp(R e) { return rx_n(X_GRP, {e}); }

// ---- text ----
static inline std::string rx_flagtext(int add, int del);
static inline bool rx_atom(const R &r) { return r->k == X_SET || r->k == X_GRP; }
static inline std::string rx_reptext(int lo, int hi, int style) {
	if (style == 0) { if (lo == 0 && hi < 0) return "*"; if (lo == 1 && hi < 0) return "+"; if (lo == 0 && hi == 1) return "?"; }
	if (hi < 0) return fmt("{%d,}", lo);
	if (lo == hi && style != 2) return fmt("{%d}", lo);
	return fmt("{%d,%d}", lo, hi);
}
struct Speller { int style = 0; const char *open = "("; std::function<std::string(const Rx &)> set; };
static inline std::string rx_text(const R &r, const Speller &s, int prec = 0) { // prec: 0 alternation, 1 concatenation, 2 atom
	auto wrap = [&](bool w, const std::string &t) { return w ? std::string(s.open) + t + ")" : t; };
	switch (r->k) {
	case 20: return wrap(prec == 2, "(?" + rx_flagtext(r->lo, r->hi) + ")");
	case 21: return "(?" + rx_flagtext(r->lo, r->hi) + ":" + rx_text(r->c[0], s, 0) + ")";
	case 22: return s.set ? s.set(*r) : r->txt;
	case X_EMPTY: return prec == 2 ? std::string(s.open) + ")" : std::string();
	case X_SET: return s.set ? s.set(*r) : r->txt;
	case X_STR: return wrap(prec == 2, r->txt);
	case X_ANCH: return wrap(prec == 2, r->txt);
	case X_GRP: return std::string(s.open) + rx_text(r->c[0], s, 0) + ")";
	case X_CAT: { std::string o; for (auto &c : r->c) o += rx_text(c, s, 1); return wrap(prec == 2, o); }
	case X_ALT: { std::string o; for (size_t i = 0; i < r->c.size(); i++) o += (i ? "|" : "") + rx_text(r->c[i], s, 1); return wrap(prec >= 1, o); }
	case X_REP: return wrap(prec == 2, rx_text(r->c[0], s, 2) + rx_reptext(r->lo, r->hi, s.style));
	}
	return "";
}

// ---- meaning ----
// An abstract state carries a position mode: has anything been consumed yet; and what is known of the rest of the subject
// (M nothing; E nothing remains; N exactly one newline remains). Guesses are made at end anchors and checked by consumption.
struct RxNfa {
	struct T { int a, b, kind; Bytes set; }; // kind: 0 eps, 1 set, 2 \A, 3 \z, 4 \Z
	std::vector<T> t; int n = 0;
	int add() { return n++; }
	void link(int a, int b, int kind, const Bytes &s = Bytes()) { t.push_back({a, b, kind, s}); }
	void comp(const R &r, int a, int b) {
		switch (r->k) {
		case X_EMPTY: link(a, b, 0); break;
		case X_SET: link(a, b, 1, r->set); break;
		case X_STR: { int x = a; if (r->txt.empty()) link(a, b, 0); for (size_t i = 0; i < r->txt.size(); i++) { int y = i + 1 == r->txt.size() ? b : add(); Bytes s; s.set((unsigned char) r->txt[i]); link(x, y, 1, s); x = y; } break; }
		case X_ANCH: link(a, b, 2 + r->type); break;
		case X_GRP: comp(r->c[0], a, b); break;
		case X_CAT: { int x = a; for (size_t i = 0; i < r->c.size(); i++) { int y = i + 1 == r->c.size() ? b : add(); comp(r->c[i], x, y); x = y; } if (r->c.empty()) link(a, b, 0); break; }
		case X_ALT: for (auto &c : r->c) { int x = add(), y = add(); link(a, x, 0); comp(c, x, y); link(y, b, 0); } break;
		case X_REP: {
			int x = add(); link(a, x, 0);
			for (int i = 0; i < r->lo; i++) { int y = add(); comp(r->c[0], x, y); x = y; }
			if (r->hi < 0) { int l = add(), m = add(); link(x, l, 0); comp(r->c[0], l, m); link(m, l, 0); link(l, b, 0); }
			else { for (int i = r->lo; i < r->hi; i++) { link(x, b, 0); int y = add(); comp(r->c[0], x, y); x = y; } link(x, b, 0); }
			break; }
		}
	}
};
struct RxOpt { bool anchored_start = false, anchored_end = false, end_nl = true; };
static inline Nfa rx_nfa(const R &r, const RxOpt &o) {
	RxNfa x; int i = x.add(), f = x.add(); x.comp(r, i, f);
	Nfa a; std::vector<int> id(x.n * 6, -1), work;
	auto get = [&](int q, int z, int m) { int k = (q * 2 + z) * 3 + m; if (id[k] < 0) { id[k] = a.add(); work.push_back(k); } return id[k]; };
	Bytes all; all.set(); Bytes nl; nl.set('\n');
	a.start = a.add();
	std::vector<std::vector<int>> out(x.n); for (size_t j = 0; j < x.t.size(); j++) out[x.t[j].a].push_back(j);
	int acc = a.add(true), any = a.add(true), one = a.add(), loop = -1;
	a.set(any, any, all); a.set(one, acc, nl);
	int z0 = get(i, 1, 0); a.eps(a.start, z0);
	if (!o.anchored_start) { loop = a.add(); a.set(a.start, loop, all); a.set(loop, loop, all); int l = get(i, 0, 0); a.eps(loop, l); }
	while (!work.empty()) {
		int k = work.back(); work.pop_back(); int m = k % 3, z = k / 3 % 2, q = k / 6, me = id[k];
		if (q == f) {
			if (m == 0) a.eps(me, o.anchored_end ? acc : any);
			else if (m == 1) a.eps(me, acc);
			else if (!o.anchored_end) a.eps(me, one);
		}
		for (int j : out[q]) { auto &t = x.t[j]; switch (t.kind) {
		case 0: { int n = get(t.b, z, m); a.eps(me, n); break; }
		case 1: if (m == 0) { int n = get(t.b, 0, 0); a.set(me, n, t.set); } else if (m == 2 && t.set['\n']) { int n = get(t.b, 0, 1); a.set(me, n, nl); } break;
		case 2: if (z) { int n = get(t.b, z, m); a.eps(me, n); } break;
		case 3: if (m != 2) { int n = get(t.b, z, 1); a.eps(me, n); } break;
		case 4: if (m == 0) { int n = get(t.b, z, 1); a.eps(me, n); if (o.end_nl) { n = get(t.b, z, 2); a.eps(me, n); } } else { int n = get(t.b, z, m); a.eps(me, n); } break;
		} }
	}
	return a;
}
// ---- enumeration of every expression of a given size over given atoms and repeat bounds ----
struct RxEnum {
	std::vector<R> atoms; std::vector<std::pair<int, int>> reps; bool empty_alt = true;
	std::vector<std::vector<R>> memo;
	// shapes: atom (1), repeat (1 + e), concatenation and alternation (1 + a + b, left operand not the same operator)
	const std::vector<R> &of(int n) {
		if ((int) memo.size() <= n) memo.resize(n + 1);
		if (!memo[n].empty() || n < 1) return memo[n];
		std::vector<R> v;
		each(n, [&](const R &r) { v.push_back(r); return true; });
		memo[n] = v; return memo[n];
	}
	template <class F> bool each(int n, F f) {
		if (n == 1) { for (auto &a : atoms) if (!f(a)) return false; return true; }
		for (int i = 1; i < n; i++) if ((int) memo.size() <= i || memo[i].empty()) of(i);
		for (auto &e : memo[n - 1]) for (auto &p : reps) if (!f(rx_rep(e, p.first, p.second))) return false;
		for (int op = X_CAT; op <= X_ALT; op++) for (int i = 1; i + 1 < n; i++) for (auto &a : memo[i]) { if (a->k == op) continue; for (auto &b : memo[n - 1 - i]) {
			std::vector<R> c{a}; if (b->k == op) c.insert(c.end(), b->c.begin(), b->c.end()); else c.push_back(b);
			if (!f(rx_n(op, c))) return false; } }
		return true;
	}
};
// ---- the code under test ----
struct Comp { struct fsm *f = nullptr; struct re_err e; int err = 0; };
static inline Comp rx_comp(enum re_dialect d, const std::string &s, int flags, const struct fsm_alloc *al = nullptr) {
	Comp c; memset(&c.e, 0, sizeof c.e); MemIn m{s.data(), s.size()};
	errno = 0; c.f = re_comp(d, mem_getc, &m, al, (enum re_flags) flags, &c.e); c.err = errno; return c;
}
// ---- flags: what each atom means once case folding, dot-all and inline flag settings are taken into account ----
enum { X_FLAG = 20, X_SCOPE = 21, X_DOT = 22 }; // X_FLAG: (?i) etc, to the end of the enclosing group; X_SCOPE: (?i:...); X_DOT: .
enum { F_I = 1, F_S = 2 };
static inline R rx_flag(int add, int del) { auto x = std::make_shared<Rx>(); x->k = X_FLAG; x->lo = add; x->hi = del; return x; }
static inline R rx_scope(int add, int del, R c) { auto x = std::make_shared<Rx>(); x->k = X_SCOPE; x->lo = add; x->hi = del; x->c = {c}; return x; }
static inline R rx_dot() { auto x = std::make_shared<Rx>(); x->k = X_DOT; x->txt = "."; return x; }
static inline Bytes fold(const Bytes &b) { Bytes r = b; for (int c = 'a'; c <= 'z'; c++) if (b[c] || b[c - 32]) { r.set(c); r.set(c - 32); } return r; }
static inline R rx_resolve(const R &r, int &fl, int prec = 0) { // mirrors the groups rx_text writes
	auto grp = [&](bool w, std::function<R(int &)> f) { int g = fl; R x = f(w ? g : fl); return x; };
	switch (r->k) {
	case X_FLAG: return grp(prec == 2, [&](int &f) { f = (f | r->lo) & ~r->hi; return rx_empty(); });
	case X_SCOPE: { int f = (fl | r->lo) & ~r->hi; return rx_resolve(r->c[0], f, 0); }
	case X_DOT: { Bytes b; b.set(); if (!(fl & F_S)) b.reset('\n'); return rx_set(b, "."); }
	case X_SET: { Bytes b = r->set; if (fl & F_I) { if (r->type) { b = ~fold(~b); } else b = fold(b); } return rx_set(b, r->txt); }
	case X_GRP: { int f = fl; return rx_resolve(r->c[0], f, 0); }
	case X_CAT: return grp(prec == 2, [&](int &f) { std::vector<R> c; for (auto &x : r->c) c.push_back(rx_resolve(x, f, 1)); return rx_n(X_CAT, c); });
	case X_ALT: return grp(prec >= 1, [&](int &f) { std::vector<R> c; for (auto &x : r->c) c.push_back(rx_resolve(x, f, 1)); return rx_n(X_ALT, c); });
	case X_REP: return grp(prec == 2, [&](int &f) { return rx_rep(rx_resolve(r->c[0], f, 2), r->lo, r->hi); });
	}
	return r;
}
static inline std::string rx_flagtext(int add, int del) { std::string o; if (add & F_I) o += "i"; if (add & F_S) o += "s"; if (del) { o += "-"; if (del & F_I) o += "i"; if (del & F_S) o += "s"; } return o; }
