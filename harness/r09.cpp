// R09: reproducibility of seeded generation. ENG selects the engine substituted through the documented
// setting (0: default, 1: Xoshiro256ss, 2: AES_RNG). Unit 0 also compares builds with each other.
#include "mc.h"
#ifndef ENG
#define ENG 0
#endif
#if ENG == 1
#include "rng.h"
namespace Settings { using RandomEngine = Xoshiro256ss; }
#elif ENG == 2
#include "secure_rng.h"
namespace Settings { using RandomEngine = AES_RNG; }
#endif
#include "validate.h"
#include "r09_cat.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <fstream>
using mc::u64;
using std::string;
#if ENG == 0
typedef std::mt19937_64 Eng;
#elif ENG == 1
typedef Xoshiro256ss Eng;
#else
typedef AES_RNG Eng;
#endif
static const char* EN[] = {"mt19937_64", "Xoshiro256ss", "AES_RNG"};
// run f in a child process whose validate.h is untouched so far; returns the values it produced
template<class F> static bool child(F f, std::vector<long long>& out, int& status) {
	int p[2]; if (pipe(p)) { perror("pipe"); _exit(2); }
	pid_t c = fork();
	if (c == 0) {
		close(p[0]); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
		cat::Out o; f(o);
		if (write(p[1], o.data(), o.size() * 8) < 0) _exit(9);
		_exit(0);
	}
	close(p[1]); out.clear(); long long b[256]; ssize_t n; string raw;
	while ((n = read(p[0], b, sizeof b)) > 0) raw.append((char*)b, n);
	close(p[0]); waitpid(c, &status, 0);
	out.resize(raw.size() / 8); memcpy(out.data(), raw.data(), raw.size() / 8 * 8);
	return status == 0;
}
static void init(int role, int argc, char** argv) {
	if (role == 0) Generator::init(argc, argv); else if (role == 1) InputValidator::init(argc, argv); else if (role == 2) AnswerValidator::init(argc, argv); else if (role == 3) OutputValidator::init(argc, argv); else Interactor::init(argc, argv);
}
static const char* ROLE[] = {"Generator", "InputValidator", "AnswerValidator", "OutputValidator", "Interactor"};
static void draws(cat::Out& o) { for (int i = 0; i < 4; i++) o.push_back(Random::integer()); for (auto& c : cat::calls()) c.f(o); }
static string words(const std::vector<string>& v) { string r; for (auto& x : v) r += " " + x; return r; }

int main(int argc, char** argv) {
	mc::init(argc, argv);
	string wd = getenv("MC_WD") ? getenv("MC_WD") : "/tmp";
	std::vector<u64> seeds = {0, 1, 2, 42, 123456789, 1ull << 31, 1ull << 32, 1ull << 63, (1ull << 63) - 1, ~0ull, ~0ull - 1};
	for (int i = 3; i < 64; i += mc::thorough ? 1 : 5) seeds.push_back(1ull << i), seeds.push_back(~(1ull << i));
	// 1. the raw stream after (re-)seeding is the stream of the engine constructed from that seed
	mc::parallel(seeds.size(), [&](u64 i) {
		auto C = cat::calls();
		for (size_t h = 0; h <= C.size(); h++) { // whatever was drawn before
			cat::Out o; if (h) C[h - 1].f(o);
			mc::current("reseed", string(EN[ENG]) + " seed " + std::to_string(seeds[i]) + (h ? string(" after ") + C[h - 1].name : "")); mc::state(mc::comb(mc::comb(seeds[i], h), ENG));
			Random::seed(seeds[i]); Eng e(static_cast<Eng::result_type>(seeds[i]));
			for (int k = 0; k < 50; k++) { u64 g = (u64)Random::integer(), w = e(); mc::step(); if (g != w) { mc::violation(string("stream:") + EN[ENG], "after Random::seed(" + std::to_string(seeds[i]) + ") draw " + std::to_string(k) + " is not the engine's"); return; } }
			mc::trace(); mc::nontrivial();
		}
	});
	// 2. every call twice from the same seed, whatever ran in between: all ordered pairs of calls
	int n = cat::calls().size();
	mc::parallel(n, [&](u64 a) {
		auto C = cat::calls();
		for (int b = 0; b < n; b++) for (u64 s : {u64(0), u64(77), ~0ull}) {
			cat::Out x, y, junk; mc::current("repeat", string(C[a].name) + ", " + C[b].name); mc::step(5); mc::state(mc::comb(mc::comb(a, b), mc::comb(s, ENG + 50)));
			Random::seed(s); C[a].f(x); C[b].f(x);
			C[b].f(junk);
			Random::seed(s); C[a].f(y); C[b].f(y); mc::trace();
			if (x != y) mc::violation(string("repeat:") + C[a].name, string("seed ") + std::to_string(s) + ": " + C[a].name + ", " + C[b].name + " returns different values after re-seeding");
		}
	});
	// 3. --seed in every role, at every position among other arguments, vs. seeding by hand
	std::vector<string> vals = {"0", "1", "42", "-1", "9223372036854775807", "-9223372036854775808", "1000000007"};
	{ std::ofstream a(wd + "/in"), b(wd + "/ans"); mkdir((wd + "/fb").c_str(), 0777); }
	mc::parallel(5 * vals.size(), [&](u64 it) {
		int role = it % 5; string val = vals[it / 5]; long long v = strtoll(val.c_str(), 0, 10);
		string fb = wd + "/fb" + std::to_string(it); mkdir(fb.c_str(), 0777);
		std::vector<string> base = {"prog"}; if (role >= 2) base.push_back(wd + "/in"); if (role >= 3) base.push_back(wd + "/ans"), base.push_back(fb);
		auto args = [&](std::vector<string> a, int r, cat::Out& o, int mode) { // mode 1: seed by hand before init, 2: after
			if (mode == 1) Random::seed((u64)v);
			if (mode == 3) Random::seed(5), Random::integer();
			std::vector<char*> p; for (auto& x : a) p.push_back((char*)x.c_str()); p.push_back(0);
			init(r, a.size(), p.data());
			if (mode == 2) Random::seed((u64)v);
			draws(o);
		};
		std::vector<long long> want, got; int st;
		if (!child([&](cat::Out& o) { Random::seed((u64)v); draws(o); }, want, st)) { mc::violation("init:crash", "drawing without init failed"); return; }
		std::vector<std::vector<string>> extra = {{}, {"--x"}, {"case_sensitive"}, {"--n", "7", "word"}};
		for (auto& ex : extra) for (size_t pos = 0; pos <= ex.size(); pos++) for (int mode = 0; mode <= 4; mode++) {
			auto a = base;
			if (mode == 0 || mode == 3) { a.insert(a.end(), ex.begin(), ex.begin() + pos); a.push_back("--seed"); a.push_back(val); a.insert(a.end(), ex.begin() + pos, ex.end()); } else { if (pos) continue; a.insert(a.end(), ex.begin(), ex.end()); }
			string w = string(EN[ENG]) + " " + ROLE[role] + words(a) + " mode " + std::to_string(mode); mc::current("init", w); mc::state(mc::hashStr(w));
			std::vector<long long> exp = want;
			if (mode == 4) { if (!child([&](cat::Out& o) { draws(o); }, exp, st)) return; } // no seed anywhere: the default stream
			mc::step();
			if (!child([&](cat::Out& o) { args(a, role, o, mode); }, got, st)) { mc::violation("init:fail", w + " does not start (status " + std::to_string(st) + ")"); continue; }
			mc::trace();
			if (got != exp) mc::violation("seedarg:" + string(mode == 0 || mode == 3 ? "argument" : mode == 4 ? "default" : "manual"), w + ": not the stream of seed " + val);
		}
	});
#if ENG == 0
	// 4. builds against each other
	{
		string repo = getenv("MC_REPO") ? getenv("MC_REPO") : "/repo", src = __FILE__; src = src.substr(0, src.rfind('/'));
		struct B { string name, cmd; int d, gd; };
		int D32 = mc::thorough ? 3 : 2;
		std::vector<B> bs = {{"gcc-17-O2", "g++ -std=c++17 -O2", 3, 3}, {"clang-17-O1", "clang++ -std=c++17 -O1", 3, 3}, {"gcc-20-O1", "g++ -std=c++20 -O1", 3, 3}, {"clang-20-O2", "clang++ -std=c++20 -O2", 3, 3},
			{"gcc-17-m32", "g++ -m32 -msse2 -mfpmath=387 -std=c++17 -O2", D32, 2}, {"clang-20-m32", "clang++ -m32 -std=c++20 -O1", D32, 2}};
		int ran = 0; std::vector<string> err(bs.size()); std::vector<std::vector<u64>> res(bs.size()), g(bs.size()), short2(bs.size());
		bool need = mc::replayItem < 0 || (mc::replayItem >= (long long)mc::phaseBase);
		u64 item = mc::phaseBase;
		std::vector<std::thread> th;
		for (size_t i = 0; i < bs.size(); i++) if (need) th.emplace_back([&, i] {
			string exe = wd + "/gen" + std::to_string(i), log = exe + ".log";
			if (system((bs[i].cmd + " -w -I'" + repo + "/src' -I'" + src + "' '" + src + "/r09_gen.cpp' -o " + exe + " >" + log + " 2>&1").c_str())) { std::ifstream f(log); std::stringstream s; s << f.rdbuf(); err[i] = "does not compile: " + s.str().substr(0, 600); return; }
			for (int d = 2; d <= bs[i].d; d++) {
				string out = exe + "." + std::to_string(d);
				if (system((exe + " " + out + " " + std::to_string(d) + " " + std::to_string(d == 3 ? bs[i].gd : 2) + " >" + log + " 2>&1").c_str())) { err[i] = "seeded calls failed"; return; }
				std::FILE* f = fopen(out.c_str(), "rb"); u64 hd[2];
				for (int part = 0; part < 2; part++) { if (!f || fread(hd, 8, 2, f) != 2) { err[i] = "no result"; return; } std::vector<u64> v(hd[1]); if (hd[1] && fread(v.data(), 8, hd[1], f) != hd[1]) { err[i] = "short result"; return; } if (part == 0) (d == 2 ? short2 : res)[i] = v; else if (d == 2 || bs[i].gd == 3) g[i] = v; }
				fclose(f); unlink(out.c_str());
			}
		});
		for (auto& t : th) t.join();
		(void)ran;
		auto C = cat::calls(); int n = C.size();
		auto viol = [&](const string& key, const string& t) { mc::violationAt(item, key, t); };
		auto trace = [&](size_t i, string spec) { string o; std::FILE* p = popen((wd + "/gen" + std::to_string(i) + " trace " + spec + " 2>&1").c_str(), "r"); char b[400]; while (p && fgets(b, sizeof b, p)) o += b; if (p) pclose(p); return o; };
		if (need) for (size_t i = 0; i < bs.size(); i++) if (err[i].size()) viol("build:" + bs[i].name, bs[i].name + " " + err[i]);
		auto compare = [&](std::vector<std::vector<u64>>& r, int depth, bool graph) {
			size_t ref = bs.size(); for (size_t i = 0; i < bs.size(); i++) if (err[i].empty() && r[i].size()) { ref = i; break; }
			if (ref == bs.size()) return;
			for (size_t i = ref; i < bs.size(); i++) if (err[i].empty() && r[i].size() == r[ref].size()) {
				std::set<string> seen;
				for (u64 h = 0; h < r[i].size(); h++) {
					mc::step(depth); if (i == ref) mc::state(mc::comb(h, 900 + depth + 10 * graph));
					if (r[i][h] && r[i][h] == r[ref][h]) continue;
					u64 x = h / 4; int m = graph ? 13 : n; std::vector<int> ops(depth); for (int k = depth; k--;) ops[k] = x % m, x /= m;
					string spec = (graph ? "g" : "a") + std::to_string(h % 4); for (int o : ops) spec += " " + std::to_string(o);
					string ta = trace(ref, spec), tb = trace(i, spec), last; // first differing call names the culprit
					std::istringstream sa(ta), sb(tb); string la, lb; while (std::getline(sa, la) && std::getline(sb, lb)) if (la != lb) { last = la.substr(0, la.find(" ->")); break; }
					bool hist = r[i][h] == 0;
					if (last.empty()) last = hist ? "history" : "later";
					if (seen.insert(last).second) viol((hist ? "stateful:" : "crossbuild:") + last, bs[i].name + (hist ? " gives values depending on what ran before re-seeding: " : " and " + bs[ref].name + " differ: ") + tb + " vs " + ta);
					if (seen.size() > 3) break;
				}
				mc::trace(r[i].size());
			}
		};
		if (need) { compare(short2, 2, false); compare(res, 3, false);
			std::vector<std::vector<u64>> g2(g), g3(g); for (size_t i = 0; i < bs.size(); i++) { if (g[i].size() != 13 * 13 * 4) g2[i].clear(); if (g[i].size() != 13 * 13 * 13 * 4) g3[i].clear(); } compare(g2, 2, true); compare(g3, 3, true);
			for (size_t i = 0; i < bs.size(); i++) mc::notes[bs[i].name] = std::to_string(short2[i].size()) + " pairs, " + std::to_string(res[i].size()) + " triples, " + std::to_string(g[i].size()) + " graph histories";
			string f; for (size_t i = 0; i < bs.size(); i++) { unlink((wd + "/gen" + std::to_string(i)).c_str()); } }
		mc::phaseBase++;
	}
#endif
	mc::sample("seed 42 after prime(100); 50 raw draws vs. a fresh engine"); mc::sample("--n --seed -1 7 word in role Interactor vs. Random::seed(2^64-1)");
	return mc::finish();
}
