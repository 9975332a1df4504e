// P32: a failed allocation is reported, never a crash or corruption. For every operation and input, every allocation the
// operation makes through the caller's allocator is made to fail in turn: that one alone, and it and all after it.
// With --mem=1 (P33): what is allocated is all released, by the same allocator, when nothing fails (and when something does).
#include "gen.h"
#include "rx.h"
#include "fault.h"
static FaultAlloc FA;
#include "ops.h"
struct Res { bool crashed = false, ok = false; std::string why, obs, again; std::vector<char> alive; bool hasout = false; Nfa out; std::vector<Nfa> after; long count = 0; std::string bad; size_t leak = 0; bool failed = false; };
static Res attempt(const Op &o, const std::vector<const Nfa *> &in, long failat, bool after) {
	Res r; FA.reset(); Run run;
	for (auto *a : in) run.m.push_back(build(*a, &FA.a));
	std::vector<struct fsm *> ms = run.m;
	FA.count = 0; FA.failat = failat; FA.after = after;
	if (!guarded([&] { r.ok = o.run(run); })) { r.crashed = true; r.why = guard_why; FA.forget(); return r; }
	r.count = FA.count; r.failed = FA.failed; FA.failat = -1; FA.after = false; r.obs = run.obs; ms = run.m;
	if (o.kind == QUERY && !r.ok && failat >= 0 && !guarded([&] { Run q; q.m = run.m; o.run(q); r.again = q.obs; })) { r.crashed = true; r.why = "asked again: " + guard_why; FA.forget(); return r; }
	if (!guarded([&] {
		FA.check();
		for (auto *m : ms) r.alive.push_back(m != run.out && FA.live.count(m));
		if (run.out) { r.hasout = true; r.out = extract(run.out); }
		for (size_t i = 0; i < ms.size(); i++) r.after.push_back(r.alive[i] ? extract(ms[i]) : Nfa());
		if (run.out) fsm_free(run.out);
		for (size_t i = 0; i < ms.size(); i++) if (r.alive[i] && FA.live.count(ms[i])) fsm_free(ms[i]);
	})) { r.crashed = true; r.why = "afterwards: " + guard_why; FA.forget(); return r; }
	r.bad = FA.bad; r.leak = FA.live.size();
	return r;
}
static const int WHAT = CMP_END | CMP_IDS | CMP_EAGER;
static bool same(const Nfa &a, const Nfa &b) { return !compare(a, b, WHAT, 20000).differ; }

int main(int argc, char **argv) {
	H.init(argc, argv); mem = H.arg.count("mem"); T = H.thorough && !H.arg.count("lite"); guard_init();
	define(); define_inputs();
	std::string only = H.arg.count("op") ? H.arg["op"] : "";
	for (auto &o : ops) {
		if (!only.empty() && o.name.find(only) == std::string::npos) continue;
		bool needs_start = o.name == "fsm_intersect" || o.name == "fsm_subtract" || o.name == "fsm_union_array", needs_end = o.name == "fsm_concat";
		int na = o.arity; std::vector<std::vector<int>> tuples;
		if (na == 0) tuples.push_back({});
		else for (size_t i = 0; i < inputs.size(); i++) { std::vector<int> t; for (int j = 0; j < na; j++) t.push_back((i + j * (j + 4)) % inputs.size()); tuples.push_back(t); }
		for (auto &t : tuples) {
			// the run without faults is the same in every shard, so every shard counts the same cases
			std::vector<Nfa> store; std::vector<const Nfa *> in; for (int i : t) { Nfa a = inputs[i]; if (needs_start && a.start < 0) a = inputs[0]; if (needs_end && ref_empty(a)) a = inputs[1]; if (o.dfa) { a = ref_dfa(a, 400); a = ref_trim(a); if (inputs[i].start < 0) { a = Nfa(); a.add(true); a.start = 0; } } store.push_back(a); }
			for (auto &a : store) in.push_back(&a);
			auto name = [&] { std::string s = o.name; for (int i : t) s += " (" + inames[i] + ")"; return s; };
			Res ref = attempt(o, in, -1, false);
			auto judge = [&](const Res &r, bool base) {
				auto bad = [&](const char *k, const std::string &m) { H.fail(std::string(k) + " " + o.name, m); };
				H.traces++;
				if (r.crashed) { if (!mem) bad("crash", r.why); return; }
				if (!r.bad.empty()) { bad("memory", r.bad); return; }
				if (mem) { if (r.leak) bad(base ? "leak" : "leak-on-failure", fmt("%zu blocks are still allocated after everything was freed%s", r.leak, r.ok ? "" : " (the operation failed)")); return; }
				if (r.ok && !base) {
					if (r.obs != ref.obs) bad("result", "reports success with another result: " + show(r.obs.substr(0, 200)) + ", should be " + show(ref.obs.substr(0, 200)));
					if (r.hasout != ref.hasout || (r.hasout && !same(ref.out, r.out))) bad("result", "reports success with another machine: " + fmt("%zu states, should be %zu", r.out.n(), ref.out.n()));
				}
				if (!r.ok && !base && o.kind == QUERY && r.again != ref.obs) bad("again", "asked again after failing it reports " + show(r.again.substr(0, 200)) + ", should be " + show(ref.obs.substr(0, 200)));
				if (!r.ok && ref.ok && !r.failed) bad("result", "fails though no allocation failed");
				if (r.ok && !ref.ok) bad("result", "succeeds, but fails with no fault");
				for (size_t i = 0; i < r.alive.size(); i++) {
					if (o.kind == CONSUME || o.kind == MAKEQ) { if (r.ok && r.alive[i]) bad("operand", fmt("operand %zu was not freed", i)); continue; }
					if (!r.alive[i]) { bad("freed", fmt("operand %zu was freed, though it is the caller's%s", i, r.ok ? "" : " (the operation failed)")); continue; }
					if (o.kind == QUERY || o.kind == MAKE) { if (!same(*in[i], r.after[i])) bad("operand", fmt("operand %zu was changed", i)); }
					else if (r.ok && !base) { if (!same(ref.after[i], r.after[i])) bad("result", "reports success but leaves another language"); }
				}
				if (!r.ok && o.kind == CONSUME) { bool a = false, f = false; for (char x : r.alive) (x ? a : f) = true; if (o.name == "fsm_mergeab" ? !(r.alive[0] && !r.alive[1]) && f : a && f) bad("operand", "the operation failed, with some operands freed and some not"); H.counters[(f ? "on failure operands freed: " : "on failure operands kept: ") + o.name]++; }
			};
			if (H.take()) if (H.begin([&] { return name() + ", no fault"; })) { H.nontrivial++; H.counters["allocations"] += ref.count; judge(ref, true); }
			if (H.stop()) return H.finish();
			if (ref.crashed || o.name == "fsm_parse") continue; // fsm_parse exits when it cannot go on, as it does for syntax errors
			long step = !T && ref.count > 400 ? ref.count / 400 + 1 : 1;
			for (int after = 0; after < 2; after++) for (long k = 0; k < ref.count; k += k < 100 || k > ref.count - 50 ? 1 : step) {
				if (H.stop()) return H.finish();
				if (!H.take()) continue;
				if (!H.begin([&] { return name() + fmt(", allocation %ld%s of %ld fails", k, after ? " and all later ones" : "", ref.count); })) continue;
				Res r = attempt(o, in, k, after); H.states++; H.transitions += r.count; if (r.failed) H.nontrivial++;
				judge(r, false);
			}
		}
	}
	return H.finish();
}
