// P31: containers behave as the abstract types they implement. Explores every sequence of operations to a depth on small
// domains, with a model of standard containers beside the real one, and every size across the growth thresholds.
#include "vh.h"
#include <deque>
extern "C" {
#define new new_
#include <fsm/fsm.h>
#include <fsm/alloc.h>
#include <fsm/options.h>
#include <adt/stateset.h>
#include <adt/edgeset.h>
#include <adt/idmap.h>
#include <adt/priq.h>
#include <adt/queue.h>
#include <adt/bitmap.h>
#include <adt/internedstateset.h>
#include <adt/set.h>
#include <adt/tupleset.h>
#include <adt/path.h>
#include "libfsm/internal.h"
#undef new
}
typedef fsm_state_t St;
typedef std::set<St> SS;
static std::string err;
static std::vector<std::string> trail;
static bool no(const std::string &m) { if (err.empty()) err = m; return false; }
// with --count=1, a caller's allocator which records what is outstanding (for P33)
static std::set<void *> out; static const struct fsm_alloc *AL;
static void c_free(void *, void *p) { if (p && !out.erase(p)) no("freed what this allocator did not give"); free(p); }
static void *c_calloc(void *, size_t n, size_t z) { void *p = calloc(n, z); out.insert(p); return p; }
static void *c_malloc(void *, size_t z) { void *p = malloc(z); out.insert(p); return p; }
static void *c_realloc(void *, void *p, size_t z) { if (p && !out.erase(p)) no("resized what this allocator did not give"); p = realloc(p, z); out.insert(p); return p; }
static const struct fsm_alloc counting = {c_free, c_calloc, c_malloc, c_realloc, nullptr};
static size_t kept; // by sets made once
static void leaks() { if (out.size() > kept) { no(fmt("%zu blocks are still allocated", out.size() - kept)); } }
static const St NONE = FSM_STATE_REMAP_NO_STATE;
static std::string ss(const SS &s) { std::string o = "{"; for (St x : s) o += fmt("%s%u", o.size() > 1 ? "," : "", x); return o + "}"; }

// every sequence of up to d operations out of n: fresh() makes a new subject, step(op, check) applies one and checks if asked
template <class F, class S, class D> static void sequences(const char *what, int n, int d, F fresh, S step, D done) {
	for (int len = 1; len <= d; len++) {
		std::vector<int> q(len, 0);
		for (;;) {
			if (H.stop()) return;
			if (H.take()) {
				auto desc = [&] { std::string o = what; for (auto &t : trail) o += " " + t; return o; };
				trail.clear(); for (int x : q) trail.push_back(fmt("#%d", x));
				if (H.begin([&] { return desc(); })) {
					trail.clear(); err.clear(); fresh();
					for (int i = 0; i < len && err.empty(); i++) step(q[i], i + 1 == len);
					done(); leaks(); if (!err.empty()) H.fail(what, err + " after" + desc());
					 H.nontrivial++; H.states++; H.transitions += len;
				}
			}
			int i = len - 1; while (i >= 0 && ++q[i] == n) q[i--] = 0;
			if (i < 0) break;
		}
	}
}
static St remap(St s, const void *o) { const std::map<St, St> &m = *(const std::map<St, St> *) o; auto it = m.find(s); return it == m.end() ? s : it->second; }

// ---- state sets
struct StateSub { struct state_set *s = nullptr; SS m; };
static int pred_mod; static int pred(const struct fsm *, fsm_state_t s) { return s % 3 == (unsigned) pred_mod; }
static bool check_ss(const struct state_set *s, const SS &m, const std::vector<St> &univ) {
	if (state_set_count(s) != m.size()) return no(fmt("state_set_count %zu, should be %zu of %s", state_set_count(s), m.size(), ss(m).c_str()));
	if (!!state_set_empty(s) != m.empty()) return no("state_set_empty wrong for " + ss(m));
	for (St x : univ) if (!!state_set_contains(s, x) != !!m.count(x)) return no(fmt("state_set_contains(%u) wrong for %s", x, ss(m).c_str()));
	struct state_iter it; St x; std::vector<St> got; state_set_reset(s, &it);
	while (state_set_next(&it, &x)) { got.push_back(x); if (got.size() > m.size() + 1) break; }
	if (got != std::vector<St>(m.begin(), m.end())) return no(fmt("iteration gives %s, should be %s", ss(SS(got.begin(), got.end())).c_str(), ss(m).c_str()));
	if (m.size() == 1 && state_set_only(s) != *m.begin()) return no("state_set_only wrong");
	if (m.size() > 1) { const St *a = state_set_array(s); if (!std::equal(got.begin(), got.end(), a)) return no("state_set_array wrong"); }
	for (pred_mod = 0; pred_mod < 3; pred_mod++) { bool w = false; for (St y : m) if (y % 3 == (unsigned) pred_mod) w = true; if (!!state_set_has((const struct fsm *) &pred_mod, s, pred) != w) return no("state_set_has wrong for " + ss(m)); }
	return true;
}
static struct state_set *make_ss(const std::vector<St> &v, bool bulk = false) {
	struct state_set *s = nullptr;
	if (bulk) { if (!state_set_add_bulk(&s, AL, v.data(), v.size())) no("bulk add failed"); }
	else for (St x : v) if (!state_set_add(&s, AL, x)) no("add failed");
	return s;
}
static const St BIG = 0x3fffffff;
static void state_sets(int d) {
	static StateSub S;
	static const std::vector<St> univ = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 63, 64, 1000, BIG - 1, BIG, BIG + 3, BIG + 6, BIG + 9};
	static const std::vector<St> adds = {0, 1, 2, 9, BIG}, rems = {0, 1, 2, BIG};
	static const std::vector<std::vector<St>> bulks = {{}, {1}, {2, 0}, {0, 1, 2, 0}, {8, 6, 4, 2, 0, 1, 3, 5, 7}}, copies = {{}, {1}, {BIG, 2, 0}, {9}};
	static const std::vector<std::map<St, St>> maps = {{{1, NONE}}, {{0, 2}, {1, 2}}, {{0, 1}, {1, 0}}, {{0, NONE}, {1, NONE}, {2, NONE}, {9, NONE}, {BIG, NONE}}, {{0, 9}, {9, 0}, {BIG, 1}}};
	static const std::vector<std::pair<St, St>> reps = {{0, 1}, {1, BIG}, {2, 5}, {BIG, 0}, {5, 5}};
	// sets which the subject is compared with
	static std::vector<std::pair<struct state_set *, SS>> others;
	if (others.empty()) for (auto &v : std::vector<std::vector<St>>{{0}, {1}, {BIG}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {2, 9, BIG}}) { others.push_back({make_ss(v), SS(v.begin(), v.end())}); auto w = v; w.push_back(11); auto *s = make_ss(w); state_set_remove(&s, 11); others.push_back({s, SS(v.begin(), v.end())}); }
	kept = out.size();
	int n = adds.size() + rems.size() + bulks.size() + copies.size() + 1 + maps.size() + 1 + reps.size();
	sequences("state set:", n, d, [&] { S.s = nullptr; S.m.clear(); }, [&](int op, bool check) {
		if (op < (int) adds.size()) { St x = adds[op]; trail.push_back(fmt("add(%u)", x)); if (!state_set_add(&S.s, AL, x)) no("add failed"); S.m.insert(x); }
		else if ((op -= adds.size()) < (int) rems.size()) { St x = rems[op]; trail.push_back(fmt("remove(%u)", x)); state_set_remove(&S.s, x); S.m.erase(x); }
		else if ((op -= rems.size()) < (int) bulks.size()) { auto &v = bulks[op]; trail.push_back("bulk" + ss(SS(v.begin(), v.end()))); St z = 0; if (!state_set_add_bulk(&S.s, AL, v.empty() ? &z : v.data(), v.size())) no("bulk failed"); S.m.insert(v.begin(), v.end()); }
		else if ((op -= bulks.size()) < (int) copies.size()) { auto &v = copies[op]; trail.push_back("union" + ss(SS(v.begin(), v.end()))); auto *o = make_ss(v); if (!state_set_copy(&S.s, AL, o)) no("copy failed"); S.m.insert(v.begin(), v.end()); check_ss(o, SS(v.begin(), v.end()), univ); state_set_free(o); }
		else if ((op -= copies.size()) < 1) { trail.push_back("copy"); struct state_set *o = nullptr; if (!state_set_copy(&o, AL, S.s)) no("copy failed"); state_set_free(S.s); S.s = o; }
		else if ((op -= 1) < (int) maps.size()) { auto &m = maps[op]; trail.push_back(fmt("compact%d", op)); state_set_compact(&S.s, remap, (void *) &m); SS o; for (St x : S.m) { St y = remap(x, &m); if (y != NONE) o.insert(y); } S.m = o; }
		else if ((op -= maps.size()) < 1) { trail.push_back("rebase(3)"); state_set_rebase(&S.s, 3); SS o; for (St x : S.m) o.insert(x + 3); S.m = o; }
		else { op -= 1; auto &r = reps[op]; trail.push_back(fmt("replace(%u,%u)", r.first, r.second)); state_set_replace(&S.s, r.first, r.second); if (S.m.erase(r.first)) S.m.insert(r.second); }
		if (!check) return;
		check_ss(S.s, S.m, univ);
		if (S.s && S.m.size() > 0) {
			std::vector<int> sg;
			for (auto &o : others) {
				int r = state_set_cmp(S.s, o.first), q = state_set_cmp(o.first, S.s);
				if ((r == 0) != (S.m == o.second)) no("state_set_cmp is " + std::string(r ? "not " : "") + "0 for " + ss(S.m) + " and " + ss(o.second));
				if ((r < 0) != (q > 0)) no("state_set_cmp is not antisymmetric for " + ss(S.m) + " and " + ss(o.second));
			}
		}
	}, [&] { state_set_free(S.s); });
	// a total order
	if (H.take() && H.begin([] { return std::string("state set order"); })) {
		err.clear(); H.nontrivial++;
		for (auto &a : others) for (auto &b : others) for (auto &c : others) if (state_set_cmp(a.first, b.first) <= 0 && state_set_cmp(b.first, c.first) <= 0 && state_set_cmp(a.first, c.first) > 0) no("state_set_cmp is not transitive");
		if (!err.empty()) H.fail("state set order", err);
	}
}
static std::vector<St> arrange(int n, int how, St mul) {
	std::vector<St> v; for (int i = 0; i < n; i++) v.push_back(i * mul);
	if (how == 1) std::reverse(v.begin(), v.end());
	if (how == 2) { std::vector<St> o; for (int i = 0; i < n; i++) o.push_back(v[i % 2 ? n - 1 - i / 2 : i / 2]); v = o; }
	if (how == 3) { std::vector<St> o; for (int i = 0; i < n; i++) o.push_back(v[(size_t) i * 7919 % n]); std::set<St> u(o.begin(), o.end()); if ((int) u.size() == n) v = o; }
	return v;
}
static void state_set_sizes(int N) {
	for (int n = 1; n <= N; n++) for (int how = 0; how < 4; how++) for (int mul = 1; mul <= 5; mul += 2) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("state set of %d, order %d, spacing %d", n, how, mul); })) continue;
		H.nontrivial++; err.clear(); auto v = arrange(n, how, mul); std::vector<St> univ; for (int i = 0; i <= n * mul + 1; i++) univ.push_back(i);
		for (int bulk = 0; bulk < 2; bulk++) {
			auto *s = make_ss(v, bulk); SS m(v.begin(), v.end()); check_ss(s, m, univ);
			for (int i = 0; i < n; i++) { state_set_remove(&s, v[i]); m.erase(v[i]); if (i % 5 == 0 || n < 20) check_ss(s, m, univ); if (i % 3 == 0) { state_set_add(&s, AL, v[i] + 1); m.insert(v[i] + 1); } }
			check_ss(s, m, univ);
			auto *o = make_ss(v, !bulk); if (!state_set_copy(&o, AL, s)) no("copy failed"); m.insert(v.begin(), v.end()); check_ss(o, m, univ);
			state_set_free(s); state_set_free(o); H.transitions += 2 * n;
		}
		leaks();
		if (!err.empty()) H.fail("state set size", err);
	}
}

// ---- edge sets
typedef std::map<int, SS> EM; // symbol -> states
static void norm(EM &m) { for (auto it = m.begin(); it != m.end();) if (it->second.empty()) it = m.erase(it); else ++it; }
static std::string es(const EM &m) { std::string o; for (auto &x : m) o += fmt(" %d", x.first) + ss(x.second); return "[" + o + " ]"; }
static bool check_es(const struct edge_set *s, const EM &m, bool full = true) {
	size_t n = 0; for (auto &x : m) n += x.second.size();
	if (edge_set_count(s) != n) return no(fmt("edge_set_count %zu, should be %zu of %s", edge_set_count(s), n, es(m).c_str()));
	if (!!edge_set_empty(s) != (n == 0)) return no("edge_set_empty wrong for " + es(m));
	bool nd = false; for (auto &x : m) if (x.second.size() > 1) nd = true;
	struct bm bm; bm_clear(&bm);
	if (!!edge_set_hasnondeterminism(s, &bm) != nd) return no("edge_set_hasnondeterminism wrong for " + es(m));
	if (!nd) for (int c = 0; c < 256; c++) if (!!bm_get(&bm, c) != !!m.count(c)) return no("edge_set_hasnondeterminism gives the wrong bitmap for " + es(m));
	for (int c = 0; c < 256; c++) {
		auto it = m.find(c); bool h = it != m.end(); struct fsm_edge e; St t;
		if (!!edge_set_contains(s, c) != h) return no(fmt("edge_set_contains(%d) wrong for %s", c, es(m).c_str()));
		e.state = 77777; e.symbol = c + 1;
		if (!!edge_set_find(s, c, &e) != h || (h && (e.symbol != c || !it->second.count(e.state)))) return no(fmt("edge_set_find(%d) wrong for %s", c, es(m).c_str()));
		if (!!edge_set_transition(s, c, &t) != h || (h && !it->second.count(t))) return no(fmt("edge_set_transition(%d) wrong for %s", c, es(m).c_str()));
	}
	std::set<std::pair<int, St>> want, got; for (auto &x : m) for (St t : x.second) want.insert({x.first, t});
	struct edge_iter it; struct fsm_edge e; size_t k = 0; edge_set_reset(s, &it);
	while (edge_set_next(&it, &e)) { got.insert({e.symbol, (St) e.state}); if (++k > n + 1) break; }
	if (got != want || k != n) return no(fmt("iteration gives %zu edges (%zu distinct), should be %s", k, got.size(), es(m).c_str()));
	for (int from : {0, 1, 63, 64, 65, 128, 254, 255}) {
		struct edge_ordered_iter oi; edge_set_ordered_iter_reset_to(s, &oi, from); if (from == 0) edge_set_ordered_iter_reset(s, &oi);
		std::vector<std::pair<int, St>> w, g; for (auto &x : want) if (x.first >= from) w.push_back(x);
		while (edge_set_ordered_iter_next(&oi, &e)) { g.push_back({e.symbol, (St) e.state}); if (g.size() > n + 1) break; }
		if (g != w) return no(fmt("ordered iteration from %d gives %zu edges out of order or wrong, should be %s", from, g.size(), es(m).c_str()));
		if (edge_set_ordered_iter_next(&oi, &e)) return no("ordered iteration goes on after its end");
		if (!full) break;
	}
	for (int uniq = 0; uniq < 2; uniq++) {
		struct edge_group_iter gi; struct edge_group_iter_info info; std::map<std::pair<int, St>, int> seen; std::set<std::pair<St, int>> groups; size_t c = 0;
		edge_set_group_iter_reset(s, uniq ? EDGE_GROUP_ITER_UNIQUE : EDGE_GROUP_ITER_ALL, &gi);
		while (edge_set_group_iter_next(&gi, &info)) {
			if (++c > 2 * n + 2) return no("group iteration does not end for " + es(m));
			bool any = false;
			if (!groups.insert({info.to, uniq ? info.unique : 0}).second) return no("group iteration gives a group twice for " + es(m));
			for (int x = 0; x < 256; x++) if (info.symbols[x / 64] >> (x % 64) & 1) {
				any = true; seen[{x, info.to}]++;
				if (uniq) { auto f = m.find(x); bool u = f != m.end() && f->second.size() == 1; if (!!info.unique != u) return no(fmt("group iteration says %d is %sunique in %s", x, info.unique ? "" : "not ", es(m).c_str())); }
			}
			if (!any) return no("group iteration gives a group with no symbols for " + es(m));
		}
		if (seen.size() != want.size()) return no("group iteration gives other edges than " + es(m));
		for (auto &x : seen) if (x.second != 1 || !want.count(x.first)) return no("group iteration gives an edge twice, or one that is not there, for " + es(m));
	}
	if (full && !nd && n) { // equivalence class lookup is for DFA
		St top = 0; for (auto &x : want) top = std::max(top, x.second);
		if (top < 64) for (int k2 = 1; k2 <= 3; k2++) {
			std::vector<St> ecs(64 + 16); for (size_t i = 0; i < ecs.size(); i++) ecs[i] = i % k2;
			for (int c = 0; c < 256; c++) {
				St to = 99; uint64_t lab[4]; bool h = m.count(c); int r = edge_set_check_edges_with_EC_mapping(s, c, ecs.size(), ecs.data(), &to, lab);
				if (!!r != h) return no(fmt("EC lookup of %d wrong for %s", c, es(m).c_str()));
				if (!h) { if (c > 70 && c < 250) c = 250; continue; }
				if (to != *m.at(c).begin()) return no(fmt("EC lookup of %d gives state %u for %s", c, to, es(m).c_str()));
				for (int y = 0; y < 256; y++) { bool w = m.count(y) && ecs[*m.at(y).begin()] == ecs[to]; if (!!(lab[y / 64] >> (y % 64) & 1) != w) return no(fmt("EC labels of %d wrong at %d for %s", c, y, es(m).c_str())); }
			}
		}
	}
	return true;
}
static struct edge_set *make_es(const EM &m) { struct edge_set *s = edge_set_new(); for (auto &x : m) for (St t : x.second) if (!edge_set_add(&s, AL, x.first, t)) no("edge add failed"); return s; }
static void bulk_add(struct edge_set **s, EM &m, const std::vector<int> &syms, St to) {
	uint64_t b[4] = {0, 0, 0, 0}; for (int c : syms) b[c / 64] |= (uint64_t) 1 << (c % 64);
	if (!edge_set_add_bulk(s, AL, b, to)) no("bulk failed");
	for (int c : syms) m[c].insert(to);
}
static void edge_sets(int d) {
	static struct edge_set *S; static EM M;
	static const std::vector<std::pair<int, St>> adds = {{0, 0}, {63, 0}, {64, 1}, {255, 3}, {0, 3}, {97, 5}};
	static std::vector<int> all; if (all.empty()) for (int i = 0; i < 256; i++) all.push_back(i);
	static const std::vector<std::pair<std::vector<int>, St>> bulks = {{{}, 2}, {all, 1}, {{0, 64, 128, 192}, 2}, {{63, 127, 255}, 0}};
	static const std::vector<int> rems = {0, 63, 97};
	static const std::vector<St> rst = {0, 1, 4};
	static const std::vector<std::map<St, St>> maps = {{{1, NONE}, {2, 1}, {3, 2}}, {{0, 1}}, {{0, 3}, {3, 0}}, {{0, NONE}, {1, NONE}, {2, NONE}, {3, NONE}, {4, NONE}, {5, NONE}}, {{5, 0}, {0, NONE}}};
	static const std::vector<std::pair<St, St>> reps = {{0, 1}, {1, 7}, {3, 0}, {4, 1}, {1, 1}};
	static const std::vector<EM> copies = {{}, {{0, {0}}}, {{0, {1, 2}}, {255, {0}}}, {{97, {9}}, {98, {4}}}};
	static const std::vector<SS> sss = {{}, {1}, {0, 4}};
	int n = adds.size() + bulks.size() + rems.size() + rst.size() + maps.size() + reps.size() + copies.size() + 1 + sss.size() + 1 + 2;
	sequences("edge set:", n, d, [&] { S = edge_set_new(); M.clear(); }, [&](int op, bool check) {
		if (op < (int) adds.size()) { auto &x = adds[op]; trail.push_back(fmt("add(%d,%u)", x.first, x.second)); if (!edge_set_add(&S, AL, x.first, x.second)) no("add failed"); M[x.first].insert(x.second); }
		else if ((op -= adds.size()) < (int) bulks.size()) { auto &x = bulks[op]; trail.push_back(fmt("bulk%d", op)); bulk_add(&S, M, x.first, x.second); }
		else if ((op -= bulks.size()) < (int) rems.size()) { trail.push_back(fmt("remove(%d)", rems[op])); edge_set_remove(&S, rems[op]); M.erase(rems[op]); }
		else if ((op -= rems.size()) < (int) rst.size()) { trail.push_back(fmt("remove_state(%u)", rst[op])); edge_set_remove_state(&S, rst[op]); for (auto &x : M) x.second.erase(rst[op]); }
		else if ((op -= rst.size()) < (int) maps.size()) { auto &m = maps[op]; trail.push_back(fmt("compact%d", op)); if (!edge_set_compact(&S, AL, remap, &m)) no("compact failed"); for (auto &x : M) { SS o; for (St t : x.second) { St y = remap(t, &m); if (y != NONE) o.insert(y); } x.second = o; } }
		else if ((op -= maps.size()) < (int) reps.size()) { auto &r = reps[op]; trail.push_back(fmt("replace(%u,%u)", r.first, r.second)); if (!edge_set_replace_state(&S, AL, r.first, r.second)) no("replace failed"); for (auto &x : M) if (x.second.erase(r.first)) x.second.insert(r.second); }
		else if ((op -= reps.size()) < (int) copies.size()) { trail.push_back("union" + es(copies[op])); auto *o = make_es(copies[op]); if (!edge_set_copy(&S, AL, o)) no("copy failed"); for (auto &x : copies[op]) M[x.first].insert(x.second.begin(), x.second.end()); check_es(o, copies[op], false); edge_set_free(AL, o); }
		else if ((op -= copies.size()) < 1) { trail.push_back("copy"); struct edge_set *o = edge_set_new(); if (!edge_set_copy(&o, AL, S)) no("copy failed"); edge_set_free(AL, S); S = o; }
		else if ((op -= 1) < (int) sss.size()) { trail.push_back("add_state_set(97)" + ss(sss[op])); auto *o = make_ss(std::vector<St>(sss[op].begin(), sss[op].end())); if (!edge_set_add_state_set(&S, AL, 97, o)) no("add failed"); M[97].insert(sss[op].begin(), sss[op].end()); state_set_free(o); }
		else if ((op -= sss.size()) < 1) { trail.push_back("rebase(2)"); edge_set_rebase(&S, 2); for (auto &x : M) { SS o; for (St t : x.second) o.insert(t + 2); x.second = o; } }
		else { op -= 1; trail.push_back(fmt("advise(%d)", op * 4)); if (!edge_set_advise_growth(&S, AL, op * 4)) no("advise failed"); }
		norm(M);
		if (check) check_es(S, M);
	}, [&] { edge_set_free(AL, S); });
}
static void edge_set_sizes(int N) {
	for (int n = 1; n <= N; n++) for (int how = 0; how < 4; how++) for (int lab = 0; lab < 3; lab++) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("edge set of %d groups, order %d, labels %d", n, how, lab); })) continue;
		H.nontrivial++; err.clear(); auto v = arrange(n, how, 3); struct edge_set *s = edge_set_new(); EM m; int k = 0;
		auto label = [&](int i) { return lab == 0 ? 97 : lab == 1 ? i % 256 : i * 37 % 256; };
		for (St t : v) { int c = label(k++); if (!edge_set_add(&s, AL, c, t)) no("add failed"); m[c].insert(t); if (n < 12) check_es(s, m, false); }
		check_es(s, m, false); struct edge_set *o = edge_set_new(); EM mo;
		for (int i = 0; i < n; i += 2) { int c = label(i + 1); St t = v[i] + i % 3; if (!edge_set_add(&o, AL, c, t)) no("add failed"); mo[c].insert(t); }
		if (!edge_set_copy(&o, AL, s)) no("copy failed");
		for (auto &x : m) mo[x.first].insert(x.second.begin(), x.second.end());
		check_es(o, mo, false); check_es(s, m, false); edge_set_free(AL, o);
		std::map<St, St> r; for (int i = 0; i < n; i++) r[v[i]] = i % 4 == 0 ? NONE : (St) (i % 2 ? n - i / 2 : i / 3);
		o = edge_set_new(); if (!edge_set_copy(&o, AL, s)) no("copy failed");
		if (!edge_set_compact(&o, AL, remap, &r)) no("compact failed");
		mo.clear(); for (auto &x : m) for (St t : x.second) if (r[t] != NONE) mo[x.first].insert(r[t]);
		check_es(o, mo, false); edge_set_free(AL, o);
		for (int i = 0; i < n; i++) { if (i % 2) { edge_set_remove_state(&s, v[i]); for (auto &x : m) x.second.erase(v[i]); } else { St t = v[(size_t) i * 5 % n]; if (!edge_set_replace_state(&s, AL, v[i], t)) no("replace failed"); for (auto &x : m) if (x.second.erase(v[i])) x.second.insert(t); } norm(m); if (i % 7 == 0) check_es(s, m, false); }
		check_es(s, m, false); edge_set_free(AL, s); H.transitions += 4 * n;
		leaks();
		if (!err.empty()) H.fail("edge set size", err);
	}
}

// ---- id maps
typedef std::map<St, std::set<unsigned>> IM;
struct Col { std::map<St, std::vector<unsigned>> got; };
static void col(fsm_state_t s, unsigned v, void *o) { ((Col *) o)->got[s].push_back(v); }
static bool check_im(const struct idmap *m, const IM &w, const std::vector<St> &univ) {
	Col c; idmap_iter(m, col, &c);
	if (c.got.size() != w.size()) return no(fmt("idmap_iter gives %zu states, should be %zu", c.got.size(), w.size()));
	for (auto &x : w) if (c.got[x.first] != std::vector<unsigned>(x.second.begin(), x.second.end())) return no(fmt("idmap_iter gives other values for %u", x.first));
	for (St s : univ) {
		auto it = w.find(s); std::vector<unsigned> v; if (it != w.end()) v.assign(it->second.begin(), it->second.end());
		if (idmap_get_value_count(m, s) != v.size()) return no(fmt("idmap_get_value_count(%u) is %zu, should be %zu", s, idmap_get_value_count(m, s), v.size()));
		Col d; idmap_iter_for_state(m, s, col, &d); if (v.empty() ? !d.got.empty() : d.got.size() != 1 || d.got[s] != v) return no(fmt("idmap_iter_for_state(%u) wrong", s));
		std::vector<unsigned> b(v.size() + 2, 12345); size_t n = 99;
		if (!idmap_get(m, s, v.size() * sizeof(unsigned), b.data(), &n) || n != v.size() || !std::equal(v.begin(), v.end(), b.begin()) || b[v.size()] != 12345) return no(fmt("idmap_get(%u) wrong", s));
		if (!idmap_get(m, s, b.size() * sizeof(unsigned), b.data(), nullptr)) return no("idmap_get fails with room to spare");
		if (v.size()) { std::vector<unsigned> z(v.size(), 12345); if (idmap_get(m, s, (v.size() - 1) * sizeof(unsigned), z.data(), &n) || z[v.size() - 1] != 12345) return no(fmt("idmap_get(%u) does not refuse a short buffer", s)); }
	}
	return true;
}
static void id_maps(int d, int N) {
	static struct idmap *S; static IM M;
	static const std::vector<St> st = {0, 1, 5, 1000000}; static const std::vector<unsigned> va = {0, 1, 63, 64, 65, 128, 300};
	int n = st.size() * va.size();
	sequences("id map:", n, d, [&] { S = idmap_new(AL); M.clear(); }, [&](int op, bool check) {
		St s = st[op % st.size()]; unsigned v = va[op / st.size()]; trail.push_back(fmt("set(%u,%u)", s, v));
		if (!idmap_set(S, s, v)) no("idmap_set failed");
		M[s].insert(v); if (check) check_im(S, M, {0, 1, 2, 5, 1000000});
	}, [&] { idmap_free(S); });
	for (int k = 1; k <= N; k++) for (int how = 0; how < 4; how++) for (int vv = 0; vv < 4; vv++) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("id map of %d states, order %d, values %d", k, how, vv); })) continue;
		H.nontrivial++; err.clear(); auto v = arrange(k, how, 1 + vv); auto *m = idmap_new(AL); IM w; std::vector<St> univ; int i = 0;
		for (St s : v) { univ.push_back(s); univ.push_back(s + 1); unsigned val = vv == 0 ? i : vv == 1 ? k - i : vv == 2 ? (i * 37) % 200 : 64 * (i % 9); i++; if (!idmap_set(m, s, val)) no("idmap_set failed"); w[s].insert(val); if (i % 4 == 0) { idmap_set(m, v[i / 2], val); w[v[i / 2]].insert(val); } if (i % 16 == 0) check_im(m, w, univ); }
		check_im(m, w, univ); idmap_free(m); H.transitions += k;
		leaks();
		if (!err.empty()) H.fail("id map size", err);
	}
}

// ---- interned state sets
static void interned(int d, int N) {
	static struct interned_state_set_pool *P; static std::map<std::vector<St>, interned_state_set_id> M;
	static const std::vector<std::vector<St>> sets = {{0}, {1}, {BIG}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {0, BIG}, {1, 2, 3, 4, 5, 6, 7, 8, 9}};
	auto intern = [](const std::vector<St> &v) {
		interned_state_set_id id = 0; if (!interned_state_set_intern_set(P, v.size(), v.data(), &id)) { no("interning failed"); return; }
		auto it = M.find(v); if (it != M.end()) { if (it->second != id) no("the same set has two ids: " + ss(SS(v.begin(), v.end()))); }
		else { for (auto &x : M) if (x.second == id) { no("two sets have one id: " + ss(SS(v.begin(), v.end()))); break; } M[v] = id; }
	};
	auto get = [](const std::vector<St> &v) { auto it = M.find(v); if (it == M.end()) return; auto *s = interned_state_set_get_state_set(P, it->second); std::vector<St> u = v; u.push_back(3); u.push_back(0); check_ss(s, SS(v.begin(), v.end()), u); if (v.size() > 1 && interned_state_set_get_state_set(P, it->second) != s) no("the saved instance is not reused"); };
	sequences("interned sets:", sets.size() * 2, d, [&] { P = interned_state_set_pool_alloc(AL); M.clear(); }, [&](int op, bool check) {
		auto &v = sets[op / 2]; trail.push_back((op % 2 ? "get" : "intern") + ss(SS(v.begin(), v.end())));
		if (op % 2) get(v); else intern(v);
		if (check) { for (auto &x : std::map<std::vector<St>, interned_state_set_id>(M)) intern(x.first); for (auto &x : M) get(x.first); }
	}, [&] { interned_state_set_pool_free(P); });
	for (int n = 1; n <= N; n += n < 80 ? 1 : 17) for (int how = 0; how < 5; how++) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("%d interned sets, kind %d", n, how); })) continue;
		H.nontrivial++; err.clear(); P = interned_state_set_pool_alloc(AL); std::map<std::vector<St>, interned_state_set_id> m; std::set<interned_state_set_id> ids; std::vector<std::vector<St>> all;
		for (int i = 0; i < n; i++) { std::vector<St> v; if (how == 0) v = {(St) i, (St) i + 1}; else if (how == 1) for (int j = 0; j <= i % 300; j++) v.push_back(j * (1 + i / 300)); else if (how == 2) for (int j = 0; j < 10; j++) { if ((i + 1) >> j & 1) v.push_back(j); } else if (how == 3) v = {0, (St) i + 1, (St) i + 1000000}; else { v.push_back(i); if (i % 2) v.push_back(i + 5); } all.push_back(v); }
		for (int pass = 0; pass < 2; pass++) for (auto &v : all) {
			if (v.empty()) continue;
			interned_state_set_id id; if (!interned_state_set_intern_set(P, v.size(), v.data(), &id)) no("interning failed");
			auto it = m.find(v); if (it == m.end()) { m[v] = id; if (!ids.insert(id).second) no("two sets have one id"); } else if (it->second != id) no("the same set has two ids");
			H.transitions++;
		}
		for (auto &x : m) { auto *s = interned_state_set_get_state_set(P, x.second); std::vector<St> u = x.first; u.push_back(u.back() + 1); check_ss(s, SS(x.first.begin(), x.first.end()), u); }
		interned_state_set_pool_free(P);
		leaks();
		if (!err.empty()) H.fail("interned sets size", err);
	}
}

// ---- priority queues, queues, paths
static void priqs(int d) {
	static struct priq *Q; static std::map<struct priq *, std::pair<St, unsigned>> M; static struct priq *done; static std::vector<struct priq *> moved; static int made;
	static const std::vector<unsigned> costs = {0, 1, 2, ~0u};
	static std::vector<struct priq *> by;
	int n = costs.size() + 1 + 3 * costs.size();
	sequences("priority queue:", n, d, [&] { Q = done = nullptr; M.clear(); moved.clear(); by.clear(); made = 0; }, [&](int op, bool check) {
		if (op < (int) costs.size()) { St s = made % 3 + (made / 3) * 10; made++; trail.push_back(fmt("push(%u,%u)", s, costs[op])); auto *p = priq_push(AL, &Q, s, costs[op]); if (!p || p->state != s || p->cost != costs[op] || p->prev) no("priq_push gives the wrong node"); M[p] = {s, costs[op]}; by.push_back(p); }
		else if ((op -= costs.size()) == 0) {
			trail.push_back("pop"); auto *p = priq_pop(&Q);
			if (M.empty()) { if (p) no("priq_pop gives a node from an empty queue"); return; }
			if (!p || !M.count(p)) { no("priq_pop gives something which is not in the queue"); return; }
			for (auto &x : M) if (x.second.second < M[p].second) { no("priq_pop does not give the least cost"); break; }
			if (p->state != M[p].first) no("priq_pop changed the state");
			if (p->next) no("priq_pop leaves next set");
			M.erase(p); priq_move(&done, p); moved.push_back(p);
		} else {
			op--; size_t k = op / costs.size(); unsigned c = costs[op % costs.size()]; if (k >= by.size() || !M.count(by[k])) return; // as shortest.c does: the cost is set by the caller
			trail.push_back(fmt("update(#%zu,%u)", k, c)); priq_update(&Q, by[k], c); by[k]->cost = c; M[by[k]].second = c;
		}
		if (!check) return;
		size_t k = 0; unsigned last = 0; for (auto *p = Q; p; p = p->next, k++) { if (!M.count(p) || k > M.size()) { no("the queue holds a node it should not"); break; } if (p->cost < last) no("the queue is out of order"); last = p->cost; }
		if (k != M.size()) no(fmt("the queue holds %zu nodes, should be %zu", k, M.size()));
		for (St s = 0; s < 24; s++) { auto *p = priq_find(Q, s); bool w = false; for (auto &x : M) if (x.second.first == s) w = true; if (!!p != w || (p && (p->state != s || !M.count(p)))) no("priq_find wrong"); }
		k = 0; for (auto *p = done; p; p = p->next, k++) if (k >= moved.size() || p != moved[moved.size() - 1 - k]) { no("priq_move loses nodes"); break; }
		if (k != moved.size()) no("priq_move loses nodes");
	}, [&] { priq_free(AL, Q); priq_free(AL, done); });
}
static void queues(int d, int N) {
	for (int cap = 1; cap <= 4; cap++) {
		static struct queue *Q; static std::deque<St> M; static int k;
		sequences(cap == 1 ? "queue of 1:" : cap == 2 ? "queue of 2:" : cap == 3 ? "queue of 3:" : "queue of 4:", 2, d, [&] { Q = queue_new(AL, cap); if (!Q) no("queue_new failed"); M.clear(); k = 1; }, [&](int op, bool) {
			if (op == 0) { St v = k++; trail.push_back(fmt("push(%u)", v)); int r = queue_push(Q, v); if (!!r != ((int) M.size() < cap)) no(fmt("queue_push gives %d with %zu in the queue", r, M.size())); if ((int) M.size() < cap) M.push_back(v); }
			else { trail.push_back("pop"); St v = 0; int r = queue_pop(Q, &v); if (!!r != !M.empty()) no("queue_pop wrong"); if (!M.empty()) { if (v != M.front()) no(fmt("queue_pop gives %u, should be %u", v, M.front())); M.pop_front(); } }
		}, [&] { queue_free(Q); });
	}
	for (int cap = 5; cap <= N; cap++) for (int a = 1; a <= cap; a += 1 + cap / 7) for (int b = 1; b <= a; b += 1 + cap / 5) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("queue of %d: %d in, %d out, over and over", cap, a, b); })) continue;
		H.nontrivial++; err.clear(); auto *Q = queue_new(AL, cap); std::deque<St> M; St k = 1, v;
		for (int r = 0; r < 40; r++) {
			for (int i = 0; i < a; i++, k++) { int ok = queue_push(Q, k); if (!!ok != ((int) M.size() < cap)) no("queue_push wrong"); if ((int) M.size() < cap) M.push_back(k); }
			for (int i = 0; i < b; i++) { int ok = queue_pop(Q, &v); if (!!ok != !M.empty()) no("queue_pop wrong"); if (!M.empty()) { if (v != M.front()) no("queue_pop out of order"); M.pop_front(); } }
		}
		while (queue_pop(Q, &v)) { if (M.empty() || v != M.front()) { no("queue_pop out of order"); break; } M.pop_front(); }
		if (!M.empty()) no("the queue lost states");
		queue_free(Q); H.transitions += 40 * (a + b);
		if (!err.empty()) H.fail("queue", err);
	}
	if (H.take() && H.begin([] { return std::string("paths"); })) {
		err.clear(); H.nontrivial++; struct path *p = nullptr; for (int i = 0; i < 300; i++) { auto *n = path_push(AL, &p, i * 3, (char) i); if (n != p || n->state != (St) i * 3 || n->c != (char) i) no("path_push wrong"); }
		int i = 300; for (auto *n = p; n; n = n->next) { i--; if (n->state != (St) i * 3 || n->c != (char) i) { no("the path is out of order"); break; } } if (i) no("the path lost states");
		path_free(AL, p); if (!err.empty()) H.fail("path", err);
	}
}

// ---- tuple sets
struct fsm_walk2_tuple { int k, v; };
static int tcmp(const void *a, const void *b) { auto *x = *(const struct fsm_walk2_tuple *const *) a, *y = *(const struct fsm_walk2_tuple *const *) b; return (x->k > y->k) - (x->k < y->k); }
static void tuple_sets(int d, int N) {
	static std::vector<struct fsm_walk2_tuple> pool; if (pool.empty()) for (int i = 0; i < 8; i++) pool.push_back({i / 2, i});
	static struct tuple_set *T; static std::map<int, struct fsm_walk2_tuple *> M;
	auto check = [](struct tuple_set *t, const std::map<int, struct fsm_walk2_tuple *> &m, int top) { for (int k = -1; k <= top; k++) { struct fsm_walk2_tuple x = {k, -1}; auto *p = tuple_set_contains(t, &x); auto it = m.find(k); if (p != (it == m.end() ? nullptr : it->second)) { no(fmt("tuple_set_contains(%d) wrong", k)); break; } } };
	sequences("tuple set:", pool.size(), d, [&] { T = tuple_set_create(AL, tcmp); M.clear(); }, [&](int op, bool c) {
		trail.push_back(fmt("add(%d as %d)", pool[op].k, op)); if (!tuple_set_add(T, &pool[op])) no("tuple_set_add failed"); M.insert({pool[op].k, &pool[op]}); if (c) check(T, M, 5);
	}, [&] { tuple_set_free(T); });
	for (int n = 1; n <= N; n++) for (int how = 0; how < 4; how++) {
		if (H.stop()) return;
		if (!H.take()) continue;
		if (!H.begin([&] { return fmt("tuple set of %d, order %d", n, how); })) continue;
		H.nontrivial++; err.clear(); auto v = arrange(n, how, 2); std::vector<struct fsm_walk2_tuple> p; for (St x : v) p.push_back({(int) x, 0});
		auto *t = tuple_set_create(AL, tcmp); std::map<int, struct fsm_walk2_tuple *> m;
		for (auto &x : p) { if (!tuple_set_add(t, &x)) no("tuple_set_add failed"); m[x.k] = &x; if (n < 20) check(t, m, 2 * n + 1); }
		check(t, m, 2 * n + 1); tuple_set_free(t); H.transitions += n;
		leaks();
		if (!err.empty()) H.fail("tuple set size", err);
	}
}

// ---- bitmaps
static void bitmaps(int d) {
	static struct bm *B; static std::set<int> M; static std::vector<struct bm> others; static std::vector<std::set<int>> om;
	static const std::vector<int> bits = {0, 1, 63, 64, 128, 255};
	if (others.empty()) for (int k = 0; k < 4; k++) { struct bm b; bm_clear(&b); std::set<int> m; for (int i = 0; i < 256; i++) if (k == 0 ? false : k == 1 ? i % 2 == 0 : k == 2 ? i >= 64 && i < 130 : true) { bm_set(&b, i); m.insert(i); } others.push_back(b); om.push_back(m); }
	int n = 2 * bits.size() + 2 + 3 * others.size() + 1;
	sequences("bitmap:", n, d, [&] { B = (struct bm *) malloc(sizeof *B); bm_clear(B); M.clear(); }, [&](int op, bool check) {
		if (op < (int) bits.size()) { trail.push_back(fmt("set(%d)", bits[op])); bm_set(B, bits[op]); M.insert(bits[op]); }
		else if ((op -= bits.size()) < (int) bits.size()) { trail.push_back(fmt("unset(%d)", bits[op])); bm_unset(B, bits[op]); M.erase(bits[op]); }
		else if ((op -= bits.size()) == 0) { trail.push_back("clear"); bm_clear(B); M.clear(); }
		else if (--op == 0) { trail.push_back("invert"); bm_invert(B); std::set<int> o; for (int i = 0; i < 256; i++) if (!M.count(i)) o.insert(i); M = o; }
		else if (--op < (int) others.size()) { trail.push_back(fmt("copy%d", op)); bm_copy(B, &others[op]); M = om[op]; }
		else if ((op -= others.size()) < (int) others.size()) { trail.push_back(fmt("intersect%d", op)); bm_intersect(B, &others[op]); std::set<int> o; for (int x : M) if (om[op].count(x)) o.insert(x); M = o; }
		else if ((op -= others.size()) < (int) others.size()) { trail.push_back(fmt("union%d", op)); bm_union(B, &others[op]); M.insert(om[op].begin(), om[op].end()); }
		else { trail.push_back("word1|=5"); uint64_t *w = bm_nth_word(B, 1); if (!w) { no("bm_nth_word gives nothing"); return; } *w |= 5; M.insert(64); M.insert(66); }
		if (!check) return;
		if (bm_count(B) != M.size()) no(fmt("bm_count is %u, should be %zu", bm_count(B), M.size()));
		if (!!bm_any(B) != !M.empty()) no("bm_any wrong");
		for (int i = 0; i < 256; i++) if (!!bm_get(B, i) != !!M.count(i)) { no(fmt("bm_get(%d) wrong", i)); break; }
		for (int v = 0; v < 2; v++) { size_t w = 256; for (int i = 255; i >= -1; i--) { if (bm_next(B, i, v) != w) { no(fmt("bm_next(%d, %d) gives %zu, should be %zu", i, v, bm_next(B, i, v), w)); break; } if (i >= 0 && !!M.count(i) == !!v) w = i; } }
		for (size_t i = 0; i < 4; i++) { uint64_t *w = bm_nth_word(B, i), x = 0; for (int j = 0; j < 64; j++) if (M.count(64 * i + j)) x |= (uint64_t) 1 << j; if (!w || *w != x) { no("bm_nth_word wrong"); break; } }
	}, [&] { free(B); });
}

int main(int argc, char **argv) {
	H.init(argc, argv);
	if (H.arg.count("count")) AL = &counting;
	bool lite = H.arg.count("lite"), T = H.thorough && !lite; int k = lite ? -1 : T ? 1 : 0;
	state_sets(3 + k); state_set_sizes(lite ? 40 : T ? 300 : 140);
	edge_sets(3 + k); edge_set_sizes(lite ? 24 : T ? 200 : 70);
	id_maps(3 + k, lite ? 24 : T ? 300 : 140);
	interned(4 + k, lite ? 300 : T ? 2500 : 1200);
	priqs(5 + k); queues(T ? 16 : lite ? 10 : 13, lite ? 20 : 60);
	tuple_sets(5 + k, lite ? 40 : T ? 600 : 200);
	bitmaps(3 + k);
	return H.finish();
}
