// r_real.h -- helpers shared by the random harnesses
#pragma once
#include "vh.h"
struct Stop {};
// the engine answers with the given words and then stops the run
struct Words {
	std::vector<u64> w; size_t pos = 0; std::function<u64()> fn;
	explicit Words(std::vector<u64> w_ = {}) : w(std::move(w_)) { fn = [this]() -> u64 { if (pos >= w.size()) throw Stop(); return w[pos++]; }; env::source = &fn; }
	void set(std::vector<u64> w_) { w = std::move(w_); pos = 0; }
	~Words() { env::source = nullptr; }
};
inline u64 rev64(u64 x) { u64 r = 0; for (int i = 0; i < 64; i++) if (x >> i & 1) r |= 1ull << (63 - i); return r; }
// K (a power of two) words whose leading bits and whose trailing bits both run through all patterns
inline std::vector<u64> symWords(unsigned lg) { std::vector<u64> r; for (u64 k = 0; k < (1ull << lg); k++) r.push_back((k << (64 - lg)) | rev64(k << (64 - lg)) | (1ull << 31)); return r; }
// boundary words: all zeros/ones, single bits, runs from both ends, and their complements
inline std::vector<u64> edgeWords(bool all) {
	std::set<u64> s = {0, ~0ull, 1, ~1ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x8000000000000001ull, 0x7fffffffffffffffull};
	for (int i = 0; i < 64; i += all ? 1 : 3) { s.insert(1ull << i); s.insert(~(1ull << i)); s.insert(~0ull << i); s.insert(~0ull >> i); }
	return {s.begin(), s.end()};
}
// quantile table of Random::real(): word pairs sorted by the value they produce, each with its share of [0,1)
struct Quant { u64 a, b; Real u, w; };
inline std::vector<Quant> quantiles(unsigned lg) {
	std::vector<Quant> q; auto A = symWords(lg), B = symWords(10); Words e;
	std::vector<Quant> all;
	for (u64 a : A) for (u64 b : B) { e.set({a, b}); try { Real u = Random::real(); all.push_back({a, b, u, 0}); } catch (Stop&) {} }
	std::sort(all.begin(), all.end(), [](const Quant& x, const Quant& y) { return x.u < y.u; });
	for (auto& x : all) if (q.empty() || x.u > q.back().u) q.push_back(x);
	for (size_t i = 0; i < q.size(); i++) { Real l = i ? (q[i - 1].u + q[i].u) / 2 : 0, h = i + 1 < q.size() ? (q[i].u + q[i + 1].u) / 2 : 1; q[i].w = h - l; }
	return q;
}
// thin the table to about n equally likely entries (midpoints of n slices)
inline std::vector<Quant> thin(const std::vector<Quant>& q, size_t n) {
	std::vector<Quant> r;
	for (size_t i = 0; i < n; i++) { Real t = (i + (Real)0.5) / n; auto it = std::lower_bound(q.begin(), q.end(), t, [](const Quant& x, Real v) { return x.u < v; }); if (it == q.end()) --it; if (it != q.begin() && t - std::prev(it)->u < it->u - t) --it; r.push_back(*it); r.back().w = (Real)1 / n; }
	return r;
}
