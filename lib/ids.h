// machines whose end states carry every combination of a few id sets
#pragma once
#include "gen.h"
static std::vector<Ids> id_sets() { std::vector<Ids> v = { { 0 }, { 1 }, { 0, 1 }, { 1, 256 }, { 256 }, { 4294967295u }, { 0, 4294967295u }, { 1, 2, 3 }, { 1, 2, 4 }, { 65536 } }; Ids m; for (int i = 0; i < 70; i++) m.insert(i * 3); v.push_back(m); return v; }
static void enum_ids(const std::function<void(const Nfa &, const std::string &)> &cb, int stride) {
	auto S = id_sets(); int n = S.size();
	for (int x = -1; x < n; x++) for (int y = -1; y < n; y++) for (int z = -1; z < n; z++) for (int k = 0; k < 2; k++) { if (H.stop()) break; if (!H.take()) continue; if (x + y + z == -3 || H.idx % stride) continue; Nfa a; int w[3] = { x, y, z }; for (int i = 0; i < 3; i++) { a.add(w[i] >= 0); if (w[i] >= 0) a.s[i].ids = S[w[i]]; } a.start = k ? 2 : 0; a.set(0, 1, B1('a')); a.set(0, 2, B1('b')); a.set(1, 2, BR('a', 'c')); a.set(2, k ? 0 : 2, B1('z')); cb(a, fmt("ids %d %d %d, %d", x, y, z, k)); }
	for (int m : { 2, 3, 15, 16, 17, 31, 32, 33, 64, 65, 100 }) for (int d = 0; d < 4; d++) { if (H.stop()) break; if (!H.take()) continue; Nfa a; a.add(false); a.start = 0; for (int i = 0; i < m; i++) { a.add(true); a.set(0, i + 1, B1(32 + i)); Ids &s = a.s[i + 1].ids; if (d == 0) s = { (unsigned) (m - i) }; else if (d == 1) s = { (unsigned) (i % 5), 77 }; else if (d == 2) for (int j = 0; j <= i % 9; j++) s.insert(i / 9 + j * 7); else s = { 5, (unsigned) (1000 + i * 257) }; } a.set(m, m, B1('q')); cb(a, fmt("%d ends, ids %d", m, d)); }
}
