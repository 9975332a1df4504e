// Exploration harness: enumerates cases in a fixed order, shards them over processes, and reports.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>

struct VhShared { volatile int64_t idx; volatile uint64_t tick; volatile int64_t done; volatile int64_t phase; char note[4096]; };

static inline std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
static inline std::string show(const std::string &s) { // readable form of a byte string
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
static inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static inline std::string fmt(const char *f, ...) {
	va_list ap; va_start(ap, f); char *p = nullptr; if (vasprintf(&p, f, ap) < 0) abort(); va_end(ap);
	std::string s(p); free(p); return s;
}

struct Vh {
	int shard = 0, nshards = 1;
	int64_t only = -1, resume = -1, idx = -1;
	uint64_t seed = 1;
	bool thorough = false, describe_only = false;
	double deadline = 1e18, t0 = 0;
	VhShared *sh = nullptr;
	std::string out;
	std::map<std::string, std::string> arg;
	// what was covered
	uint64_t evals = 0, nontrivial = 0, states = 0, transitions = 0, traces = 0;
	std::map<std::string, uint64_t> counters;
	std::vector<std::string> samples;
	std::vector<std::string> fails;
	uint64_t nfails = 0;
	bool capped = false;
	std::function<std::string()> cur; std::string slowname;
	int64_t sample_every = 997;
	int maxfails = 12;
	std::set<std::string> known, knownhit; // "key<TAB>case" of failures already recorded as findings

	static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

	void init(int argc, char **argv) {
		t0 = now();
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i], v;
			size_t e = a.find('=');
			if (e != std::string::npos) { v = a.substr(e + 1); a = a.substr(0, e); }
			if (a == "--shard") shard = atoi(v.c_str());
			else if (a == "--nshards") nshards = atoi(v.c_str());
			else if (a == "--only") only = atoll(v.c_str());
			else if (a == "--resume") resume = atoll(v.c_str());
			else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
			else if (a == "--tier") thorough = v == "thorough";
			else if (a == "--deadline") deadline = atof(v.c_str());
			else if (a == "--out") out = v;
			else if (a == "--describe") describe_only = true;
			else if (a == "--maxfails") maxfails = atoi(v.c_str());
			else if (a == "--known") { FILE *f = fopen(v.c_str(), "r"); char *l = nullptr; size_t c = 0; ssize_t n; if (f) { while ((n = getline(&l, &c, f)) > 0) { if (l[n - 1] == '\n') l[--n] = 0; known.insert(std::string(l, n)); } free(l); fclose(f); } }
			else if (a == "--shared") {
				int fd = open(v.c_str(), O_RDWR | O_CREAT, 0600);
				if (fd < 0 || ftruncate(fd, sizeof *sh) != 0) { perror(v.c_str()); exit(2); }
				sh = (VhShared *) mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
				close(fd);
			}
			else arg[a.substr(0, 2) == "--" ? a.substr(2) : a] = v;
		}
		static Vh *self = this;
		if (getenv("VH_ABRT")) signal(SIGABRT, [](int) { fprintf(stderr, "case %lld: %s\n", (long long) self->idx, self->cur ? self->cur().c_str() : ""); _exit(9); });
		if (!sh) sh = (VhShared *) calloc(1, sizeof *sh);
	}
	// Is the next case in the enumeration ours?
	bool take() {
		idx++;
		if (only >= 0) { if (idx != only) return false; }
		else {
			if (idx % nshards != shard || idx <= resume) return false;
			if (capped || (int) fails.size() >= maxfails) return false;
			if ((idx & 63) == (shard & 63) && now() - t0 > deadline) { capped = true; return false; }
		}
		static const char *slow = getenv("VH_SLOW");
		if (slow) { static double last = 0; static std::string what; double t = now(); if (last && t - last > atof(slow)) fprintf(stderr, "slow %.2fs: before case %lld: %s\n", t - last, (long long) idx, slowname.c_str()); last = t; }
		sh->idx = idx; sh->tick = sh->tick + 1;
		return true;
	}
	// skip n cases at once (none of them run)
	bool stop() const { return capped || (only >= 0 && idx >= only) || (only < 0 && (int) fails.size() >= maxfails); }
	// Describe the case about to run. Returns false when only the description was wanted.
	template <class F> bool begin(F f) {
		evals++;
		if (describe_only) { printf("%s\n", f().c_str()); fflush(stdout); return false; }
		if (samples.size() < 6 && (evals == 1 || evals % sample_every == 0)) { samples.push_back(f()); sample_every *= 3; }
		cur = f; if (getenv("VH_SLOW")) slowname = f();
		return true;
	}
	void fail(const std::string &key, const std::string &msg) {
		if (only < 0 && !known.empty() && cur) { std::string k = key + "\t" + cur(); if (known.count(k)) { knownhit.insert(k); return; } }
		nfails++;
		if ((int) fails.size() < maxfails) {
			fails.push_back(fmt("{\"idx\":%lld,\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}", (long long) idx,
				jesc(key).c_str(), jesc(cur ? cur() : "").c_str(), jesc(msg).c_str()));
		}
		if (only >= 0) { fprintf(stdout, "FAIL %s: %s: %s\n", key.c_str(), cur ? cur().c_str() : "", msg.c_str()); fflush(stdout); }
	}
	void tick() { sh->tick = sh->tick + 1; }
	int finish() {
		std::string s = "{";
		s += fmt("\"evals\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"cases\":%lld,\"capped\":%s,\"nfails\":%llu,",
			(unsigned long long) evals, (unsigned long long) nontrivial, (unsigned long long) states, (unsigned long long) transitions,
			(unsigned long long) traces, (long long) idx + 1, capped ? "true" : "false", (unsigned long long) nfails);
		s += "\"counters\":{"; bool f = true;
		for (auto &c : counters) { s += fmt("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long) c.second); f = false; }
		s += "},\"samples\":["; f = true;
		for (auto &x : samples) { s += std::string(f ? "" : ",") + "\"" + jesc(x) + "\""; f = false; }
		s += "],\"knownhit\":["; f = true;
		for (auto &x : knownhit) { s += std::string(f ? "" : ",") + "\"" + jesc(x) + "\""; f = false; }
		s += "],\"fails\":["; f = true;
		for (auto &x : fails) { s += (f ? "" : ",") + x; f = false; }
		s += "]}\n";
		if (!out.empty()) {
			FILE *fp = fopen(out.c_str(), "w"); if (!fp) { perror(out.c_str()); return 2; }
			fputs(s.c_str(), fp); fclose(fp);
		} else fputs(s.c_str(), stdout);
		sh->done = 1;
		return 0;
	}
};
static Vh H;

static inline uint64_t mix64(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
