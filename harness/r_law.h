// r_law.h -- complete choice trees: every outcome of a finite set exactly equally likely
#pragma once
#include "r_real.h"
#include <numeric>
#include <unordered_map>
template<class C> static std::string S(const C& c) { std::string r; for (auto& x : c) { r += r.empty() ? "" : ","; r += mc::str(x); } return "[" + r + "]"; }
static std::string S(const std::string& s) { return "\"" + s + "\""; }
static const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
inline u64 lcmRange(u64 a, u64 b) { __int128 l = 1; for (u64 i = std::max<u64>(a, 1); i <= b; i++) { u64 x = (u64)l, y = i; while (y) { u64 t = x % y; x = y; y = t; } l *= i / x; if (l > ((__int128)1 << 62)) return 1ull << 62; } return (u64)l; } // saturating
// f() over the complete tree of D equidistant engine words per draw; the outcomes must be exactly `want`, equally often.
// D must be a multiple of every range drawn from (otherwise the grid would not be fair: f draws other ranges -> coarser comparison)
template<class F> static void uniformOver(const std::string& key, const std::string& name, u64 D, F f, const std::set<std::string>& want) {
	mc::current(key.c_str(), name); std::map<std::string, u64> c;
	u64 leaves = vh::exploreGrid(std::max<u64>(D, 1), [&] { c[S(f())]++; }); env::source = nullptr;
	mc::nontrivial(); mc::state(mc::hashStr(key + name));
	for (auto& x : c) if (!want.count(x.first)) { mc::violation(key + ":impossible", name + " gives " + x.first); return; }
	if (vh::gridCapped) { mc::notes[name] = "tree larger than expected, only the set of outcomes seen so far was compared"; return; }
	for (auto& x : want) if (!c.count(x)) { mc::violation(key + ":unreachable", name + " never gives " + x); return; }
	for (auto& x : want) if (c[x] * want.size() != leaves) { mc::violation(key + ":uniform", name + " gives " + x + " with probability " + mc::str(c[x]) + "/" + mc::str(leaves) + " instead of 1/" + mc::str(want.size())); return; }
}
// must refuse within a bounded number of draws
template<class F> static void refused(const std::string& key, const std::string& name, F f) {
	mc::current(key.c_str(), name); vh::Script s({}); s.limit = 100000; mc::step(); mc::trace();
	bool r = vh::refuses([&] { f(); }); if (!r || s.pos >= 100000) mc::violation(key + ":not refused", name + " was not refused");
}
// all tuples of boundary words: valid(result) must hold
template<class F, class V> static void edgeRuns(const std::string& key, const std::string& name, F f, V valid, const std::vector<u64>& words, int depth) {
	mc::current(key.c_str(), name); u64 n = mc::ipow(words.size(), depth);
	for (u64 i = 0; i < n; i++) { std::vector<u64> w; for (int d : mc::digits(i, words.size(), depth)) w.push_back(words[d]); vh::Script s(w, i); auto r = f(); mc::step(); if (!valid(r)) { mc::violation(key + ":invalid", name + " gives " + S(r)); return; } }
	mc::trace(); mc::state(mc::hashStr(key + name) + 3);
}
inline void allSeq(int n, Integer lo, Integer hi, const std::function<void(const std::vector<Integer>&)>& f) { std::vector<Integer> v(n, lo); if (lo >= hi && n) return; for (;;) { f(v); int k = n - 1; while (k >= 0 && ++v[k] == hi) v[k--] = lo; if (k < 0) return; } }

// Larger requests: with all other engine words fixed, draw i of a run selects one of k_i equally likely outcomes. If different
// choices give different outcomes, all products of choices are equally likely, so their number must be a multiple of the number
// of outcomes that have to be equally likely (given by its factors). Nothing is decided when a draw is not of this form.
template<class F> static void choices(const std::string& key, const std::string& name, F f, const std::vector<u64>& factors, u64 maxK, u64 salt = 0) {
	mc::current(key.c_str(), name); u64 n = factors.size(); std::vector<u64> w; for (u64 i = 0; i < n + 8; i++) w.push_back(mc::mix(i * 2 + 5 + salt));
	auto hash = [](const auto& v) { u64 h = 7; for (auto& x : v) h = mc::comb(h, (u64)x); return h; };
	u64 used; { vh::Script s(w); f(); used = s.pos; mc::step(); } if (used > n) return; u64 M = 4 * maxK + 3; std::map<u64, Integer> have;
	for (u64 i = 0; i < used; i++) {
		std::unordered_map<u64, u64> c; auto ws = w; u64 skipped = 0;
		for (u64 j = 0; j < M; j++) { ws[i] = vh::gridWord(j, M) + j; vh::Script s(ws); u64 h = hash(f()); mc::step(); if (s.pos != used) { skipped++; continue; } c[h]++; }
		u64 lo = ~0ull, hi = 0; for (auto& x : c) lo = std::min(lo, x.second), hi = std::max(hi, x.second); if (skipped > 2 || hi > lo + 2) return; // not a choice among equally likely outcomes
		u64 k = c.size(); for (u64 p = 2; p * p <= k; p++) while (k % p == 0) have[p]++, k /= p; if (k > 1) have[k]++;
	}
	std::map<u64, Integer> need; for (u64 k : factors) { for (u64 p = 2; p * p <= k; p++) while (k % p == 0) need[p]++, k /= p; if (k > 1) need[k]++; }
	mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(key + name) + 5);
	for (auto& x : need) if (have[x.first] < x.second) { mc::violation(key + ":choices", name + ": the number of equally likely histories is not a multiple of the number of outcomes (prime " + mc::str(x.first) + " occurs " + mc::str(have[x.first]) + " instead of " + mc::str(x.second) + " times), so they cannot be equally likely"); return; }
}
