// mc.h -- tiny explicit-state / stateless exploration runtime shared by all harnesses.
// * splits a finite list of work items over worker processes (shared atomic cursor)
// * counts states (exact: shared hash set), transitions (calls made on the implementation) and
//   traces (complete executions compared with the reference)
// * a crash, an escaped exception or a hang of the implementation is a violation of the current case
// * every violation carries the work item, so it can be replayed alone (--replay ITEM)
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
typedef unsigned long long u64;
typedef long long i64;

struct Worker {
	std::atomic<u64> progress, item;
	volatile int busy;
	char cur[600];
	char key[120];
};
struct Viol { u64 item; char key[120]; char text[1400]; };
struct Sample { char text[300]; };
enum { MAXW = 64, MAXV = 400, MAXS = 24 };
struct Shared {
	std::atomic<u64> cursor, states, transitions, traces, nontrivial, setCap;
	std::atomic<unsigned> nviol, nsample, capped;
	Worker w[MAXW];
	Viol viol[MAXV];
	Sample samples[MAXS];
};
inline Shared* sh; inline std::atomic<u64>* hset; inline u64 hmask; inline Worker* me;
inline bool thorough = false; inline i64 replayItem = -1; inline unsigned nproc = 8; inline u64 phaseBase = 0;
inline u64 seed = 1; inline double hangCpu = 60; inline std::vector<std::string> extra;
inline u64 lTrans = 0, lTraces = 0, lNontriv = 0;
inline std::map<std::string, std::string> notes;

inline void flushCounts() {
	sh->transitions += lTrans; sh->traces += lTraces; sh->nontrivial += lNontriv; lTrans = lTraces = lNontriv = 0;
}
inline void step(u64 n = 1) { lTrans += n; }
inline void trace(u64 n = 1) { lTraces += n; if (me) me->progress.fetch_add(1, std::memory_order_relaxed); }
inline void nontrivial(u64 n = 1) { lNontriv += n; }
inline u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
inline u64 hashBytes(const void* p, size_t n, u64 h = 0x9e3779b97f4a7c15ull) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
	return mix(h + n);
}
inline u64 hashStr(const std::string& s, u64 h = 0x9e3779b97f4a7c15ull) { return hashBytes(s.data(), s.size(), h); }
inline u64 comb(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15); }
// record a canonical state; true iff never seen before (by any worker)
inline bool state(u64 h) {
	if (h == 0) h = 1;
	if (sh->states.load(std::memory_order_relaxed) > sh->setCap) { sh->capped = 1; return true; }
	for (u64 i = h & hmask;; i = (i + 1) & hmask) {
		u64 v = hset[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			u64 e = 0;
			if (hset[i].compare_exchange_strong(e, h)) { sh->states++; return true; }
			if (e == h) return false;
		}
	}
}
inline bool state(const std::string& s) { return state(hashStr(s)); }
inline std::string esc(const std::string& s, size_t lim = 200) {
	std::string r; char b[8];
	for (unsigned char c : s) {
		if (r.size() > lim) { r += "..."; break; }
		if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
		else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c;
	}
	return r;
}
inline void sample(const std::string& s) {
	unsigned i = sh->nsample.load();
	if (i >= MAXS) return;
	i = sh->nsample++;
	if (i < MAXS) snprintf(sh->samples[i].text, sizeof sh->samples[i].text, "%s", s.c_str());
}
// describe the case being executed, so that a crash or hang can be attributed to it
inline void current(const char* key, const std::string& s) {
	if (!me) return;
	snprintf(me->key, sizeof me->key, "%s", key);
	snprintf(me->cur, sizeof me->cur, "%s", s.c_str());
}
inline void violationAt(u64 item, const std::string& key, const std::string& text) {
	unsigned i = sh->nviol++;
	if (i >= MAXV) return;
	sh->viol[i].item = item;
	snprintf(sh->viol[i].key, sizeof sh->viol[i].key, "%s", key.c_str());
	snprintf(sh->viol[i].text, sizeof sh->viol[i].text, "%s", text.c_str());
}
inline std::map<std::string, unsigned> localViol;
// key: stable identification of the failing case (call site + input class), text: details
inline void violation(const std::string& key, const std::string& text) {
	if (++localViol[key] > 2 || localViol.size() > 60) return;
	violationAt(me ? me->item.load() : 0, key, text);
}
inline void init(int argc, char** argv) {
	u64 slots = 1ull << 22;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
		else if (a == "--replay") replayItem = atoll(argv[++i]);
		else if (a == "--jobs") nproc = atoi(argv[++i]);
		else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if (a == "--slots") slots = 1ull << atoi(argv[++i]);
		else extra.push_back(a);
	}
	if (nproc < 1) nproc = 1;
	if (nproc > MAXW) nproc = MAXW;
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	hset = (std::atomic<u64>*)mmap(0, slots * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || hset == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(2); }
	hmask = slots - 1;
	sh->setCap = slots / 8 * 7;
}
inline double cpuOf(pid_t p) {
	char f[64]; snprintf(f, sizeof f, "/proc/%d/stat", (int)p);
	FILE* fp = fopen(f, "r"); if (!fp) return 0;
	char b[1024]; size_t n = fread(b, 1, sizeof b - 1, fp); fclose(fp); b[n] = 0;
	char* q = strrchr(b, ')'); if (!q) return 0;
	unsigned long ut = 0, st = 0;
	sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
	return double(ut + st) / sysconf(_SC_CLK_TCK);
}
// run body(i) for i in [0,n), spread over worker processes; items of successive calls are numbered on
inline void parallel(u64 n, const std::function<void(u64)>& body) {
	u64 base = phaseBase; phaseBase += n;
	if (replayItem >= 0 && ((u64)replayItem < base || (u64)replayItem >= base + n)) return;
	sh->cursor = 0;
	fflush(stdout); fflush(stderr);
	unsigned k = replayItem >= 0 ? 1 : (unsigned)std::min<u64>(nproc, n);
	std::vector<pid_t> pid(k, 0);
	std::vector<u64> last(k, ~0ull); std::vector<double> lastCpu(k, 0);
	auto spawn = [&](unsigned w) {
		sh->w[w].busy = 0;
		pid_t p = fork();
		if (p < 0) { perror("fork"); _exit(2); }
		if (p) { pid[w] = p; last[w] = ~0ull; return; }
		me = &sh->w[w];
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		rl.rlim_cur = rl.rlim_max = 6ull << 30;
		if (sizeof(void*) == 8 && !getenv("MC_ASAN")) setrlimit(RLIMIT_AS, &rl);
		for (;;) {
			u64 i = replayItem >= 0 ? (u64)replayItem - base : sh->cursor++;
			if (i >= n) break;
			me->item = base + i; me->busy = 1; me->cur[0] = me->key[0] = 0;
			me->progress++;
			try { body(i); }
			catch (std::exception& e) { violation(std::string("exception:") + me->key, std::string("unexpected exception \"") + e.what() + "\" in case: " + me->cur); }
			catch (...) { violation(std::string("exception:") + me->key, std::string("unexpected exception in case: ") + me->cur); }
			me->busy = 0;
			flushCounts();
			if (replayItem >= 0) break;
		}
		flushCounts();
		_exit(0);
	};
	for (unsigned w = 0; w < k; w++) spawn(w);
	unsigned alive = k, crashes = 0; static unsigned phase = 0; phase++; struct Prof { double t0; u64 n; Prof(u64 n_) : t0(now()), n(n_) {} static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; } ~Prof() { if (getenv("MC_PROF") && now() - t0 > 0.5) fprintf(stderr, "phase %u (%llu items): %.1fs\n", phase, n, now() - t0); } } prof(n);
	while (alive) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p == 0) {
			usleep(alive ? 3000 : 0);
			static unsigned tick = 0;
			if (++tick % 100) continue;
			for (unsigned w = 0; w < k; w++) if (pid[w]) {
				u64 pr = sh->w[w].progress;
				double c = cpuOf(pid[w]);
				if (pr != last[w]) { last[w] = pr; lastCpu[w] = c; }
				else if (c - lastCpu[w] > hangCpu) {
					violationAt(sh->w[w].item, std::string("hang:") + sh->w[w].key, std::string("did not terminate: ") + sh->w[w].cur);
					kill(pid[w], SIGKILL);
				}
			}
			continue;
		}
		if (p < 0) break;
		for (unsigned w = 0; w < k; w++) if (pid[w] == p) {
			pid[w] = 0; alive--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
			bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
			if (!hang) {
				char b[64]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "signal %d" : "exit status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
				violationAt(sh->w[w].item, std::string("crash:") + sh->w[w].key, std::string("implementation crashed (") + b + ") in case: " + sh->w[w].cur);
			}
			if (replayItem < 0 && ++crashes < 20) { spawn(w); alive++; }
			break;
		}
	}
}
inline std::string jstr(const std::string& s) {
	std::string r = "\""; char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c;
	}
	return r + "\"";
}
inline int finish() {
	flushCounts();
	std::vector<Viol> v(sh->viol, sh->viol + std::min<unsigned>(sh->nviol, MAXV));
	std::stable_sort(v.begin(), v.end(), [](const Viol& a, const Viol& b) { return a.item < b.item; });
	std::set<std::string> seen;
	std::string out = "{\"states\":" + std::to_string((u64)sh->states) + ",\"transitions\":" + std::to_string((u64)sh->transitions)
		+ ",\"traces\":" + std::to_string((u64)sh->traces) + ",\"items\":" + std::to_string(phaseBase)
		+ ",\"nontrivial\":" + std::to_string((u64)sh->nontrivial)
		+ ",\"capped\":" + std::to_string((unsigned)sh->capped) + ",\"nviol\":" + std::to_string((unsigned)sh->nviol) + ",\"samples\":[";
	for (unsigned i = 0; i < std::min<unsigned>(sh->nsample, MAXS); i++) out += (i ? "," : "") + jstr(sh->samples[i].text);
	out += "],\"notes\":{";
	bool first = true;
	for (auto& n : notes) { out += (first ? "" : ",") + jstr(n.first) + ":" + jstr(n.second); first = false; }
	out += "},\"violations\":[";
	first = true;
	for (auto& x : v) if (seen.insert(x.key).second) {
		out += (first ? "" : ",") + std::string("{\"item\":") + std::to_string(x.item) + ",\"key\":" + jstr(x.key) + ",\"text\":" + jstr(x.text) + "}";
		first = false;
	}
	out += "]}";
	printf("\nMCRESULT %s\n", out.c_str());
	fflush(stdout);
	_exit(0); // skip static destructors of the library under test
}

// enumerate all tuples over [0,base)^len as an index
inline std::vector<int> digits(u64 idx, int base, int len) {
	std::vector<int> r(len);
	for (int i = len - 1; i >= 0; i--) { r[i] = idx % base; idx /= base; }
	return r;
}
inline u64 ipow(u64 b, unsigned e) { u64 r = 1; while (e--) r *= b; return r; }
template<class T> std::string show(const T& v) { std::ostringstream o; o << "["; bool f = true; for (auto&& x : v) { o << (f ? "" : ",") << x; f = false; } o << "]"; return o.str(); }
template<class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }

// ---- systematic exploration of all answers of an environment (random engine) -------------------
// A run asks choose(n) repeatedly; explore() executes the body for every possible sequence of answers.
struct Chooser {
	std::vector<unsigned> pre, n; size_t pos = 0; size_t maxDepth = 1u << 20; bool overflow = false;
	unsigned choose(unsigned k) {
		if (pos == pre.size()) { pre.push_back(0); n.push_back(k); }
		if (n[pos] != k) { n[pos] = k; if (pre[pos] >= k) { fprintf(stderr, "replay divergence\n"); abort(); } }
		return pre[pos++];
	}
	bool next() { // advance to the next leaf, depth first
		pre.resize(pos); n.resize(pos);
		while (!pre.empty() && pre.back() + 1 >= n.back()) { pre.pop_back(); n.pop_back(); }
		if (pre.empty()) return false;
		pre.back()++;
		pos = 0;
		return true;
	}
};
}
