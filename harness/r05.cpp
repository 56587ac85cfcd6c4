// R05: permutations with prescribed cycle lengths / fixpoints: exactly those, exactly uniform
#include "r_law.h"
using V = std::vector<Integer>;
static V cyclesOf(const V& p) { V r; std::vector<bool> seen(p.size()); for (size_t i = 0; i < p.size(); i++) if (!seen[i]) { Integer l = 0; for (size_t j = i; !seen[j]; j = p[j]) seen[j] = true, l++; r.push_back(l); } std::sort(r.begin(), r.end()); return r; }
static bool isP(const V& v, Integer off, size_t n) { if (v.size() != n) return false; V t; for (Integer x : v) t.push_back((Integer)((u64)x - (u64)off)); std::sort(t.begin(), t.end()); for (size_t i = 0; i < n; i++) if (t[i] != (Integer)i) return false; return true; }
static V sub(V v, Integer off) { for (auto& x : v) x = (Integer)((u64)x - (u64)off); return v; }
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough; const int N = T ? 6 : 5;
	std::vector<Integer> offs = {0, 1, -3, -1000000000000, 1000000000000, MN, MX - 20};
	// all compositions of n into cycle lengths
	std::vector<V> comps; for (int n = 0; n <= N; n++) { if (n == 0) { comps.push_back({}); continue; } for (int m = 0; m < (1 << (n - 1)); m++) { V c = {1}; for (int b = 0; b < n - 1; b++) if (m >> b & 1) c.push_back(1); else c.back()++; if (n == 6 && !std::is_sorted(c.rbegin(), c.rend())) continue; comps.push_back(c); } }
	std::reverse(comps.begin(), comps.end()); if (!T) comps.erase(std::remove_if(comps.begin(), comps.end(), [](const V& c) { return std::accumulate(c.begin(), c.end(), 0) == 5 && !std::is_sorted(c.begin(), c.end()); }), comps.end());
	mc::parallel(comps.size() * offs.size(), [&](u64 i) {
		const V& c = comps[i / offs.size()]; Integer off = offs[i % offs.size()]; int n = std::accumulate(c.begin(), c.end(), 0); if (n >= 5 && i % offs.size() > (c.size() == 2 && T ? 2 : 0)) return;
		V cs = c; std::sort(cs.begin(), cs.end()); std::set<std::string> want; V p(n); std::iota(p.begin(), p.end(), 0); do { if (cyclesOf(p) == cs) { V q = p; for (auto& x : q) x += off; want.insert(S(q)); } } while (std::next_permutation(p.begin(), p.end()));
		uniformOver("perm(cycles)", "perm(cycles " + S(c) + ", " + mc::str(off) + ")", lcmRange(1, n), [&] { return off ? Random::perm(c, off) : Random::perm(c); }, want);
	});
	// all fixpoint lists (repetitions and any order) for up to N elements
	struct J { int n; V fix; int off; }; std::vector<J> js;
	for (int n = 0; n <= N; n++) for (int m = 0; m <= std::min(n + 1, 4); m++) { u64 cnt = n ? mc::ipow(n, m) : (m == 0); for (u64 k = 0; k < cnt; k++) { V f; if (m) for (int d : mc::digits(k, n, m)) f.push_back(d); std::set<Integer> u(f.begin(), f.end()); double leaves = std::pow((double)lcmRange(1, n), std::max(n - 1, 0)); bool canon = std::is_sorted(f.begin(), f.end()); for (int o = 0; o < (int)offs.size(); o++) { if (leaves > 1e6 && (o || !canon || (m > 3))) continue; if (!T && leaves > 1e6 && (m > 2 || (m == 2 && f[0] == f[1] && f[0]))) continue; if (leaves > 1e8 && m != (int)u.size()) continue; if (leaves > 1e4 && o > 2 && m > 2) continue; js.push_back({n, f, o}); } } }
	std::stable_sort(js.begin(), js.end(), [](const J& a, const J& b) { return a.n > b.n; });
	mc::parallel(js.size(), [&](u64 i) {
		J j = js[i]; Integer off = offs[j.off]; std::set<std::string> want; V p(j.n), fx; std::iota(p.begin(), p.end(), 0); for (Integer x : j.fix) fx.push_back(x + off);
		do { bool ok = true; for (Integer x : j.fix) ok = ok && p[x] == x; if (ok) { V q = p; for (auto& x : q) x += off; want.insert(S(q)); } } while (std::next_permutation(p.begin(), p.end()));
		uniformOver("perm(fix)", "perm(" + mc::str(j.n) + ", fix " + S(fx) + ", " + mc::str(off) + ")", lcmRange(1, j.n), [&] { return off ? Random::perm(j.n, fx, off) : Random::perm(j.n, fx); }, want);
	});
	// larger ones under boundary engine words
	auto E = edgeWords(false); std::vector<u64> E3 = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAABull, 0x123456789abcdef0ull};
	std::vector<V> big = {{1, 2, 3, 4}, {10}, {5, 5, 5}, {1, 1, 1, 1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}, {20, 1, 20}, {7, 1, 2}, {1, 30}};
	mc::parallel(big.size() * offs.size(), [&](u64 i) {
		V c = big[i / offs.size()]; Integer off = std::min(offs[i % offs.size()], MX - 100); size_t n = std::accumulate(c.begin(), c.end(), 0); V cs = c; std::sort(cs.begin(), cs.end()); auto ok = [&](const V& v) { return isP(v, off, n) && cyclesOf(sub(v, off)) == cs; };
		for (auto& w : {std::make_pair(&E, 2), std::make_pair(&E3, 4)}) { edgeRuns("perm(cycles)", "perm(cycles " + S(c) + "," + mc::str(off) + ")", [&] { return Random::perm(c, off); }, ok, *w.first, w.second);
			V fx; for (Integer x : c) fx.push_back(off + x - 1); for (size_t k = 3; k < n; k += 3) fx.push_back(off + k); edgeRuns("perm(fix)", "perm(" + mc::str(n) + ", fix " + S(fx) + "," + mc::str(off) + ")", [&] { return Random::perm(n, fx, off); }, [&](const V& v) { if (!isP(v, off, n)) return false; for (Integer x : fx) if (v[(u64)x - (u64)off] != x) return false; return true; }, *w.first, w.second); }
	});
	// large ones: the cycle lengths and fixpoints are right, and fixpoint permutations have enough equally likely histories
	{
		std::vector<V> huge = {{100}, {41, 1, 42}, {64, 64}, {257}, {1000, 1}, {3, 300, 5}, V(200, 1), V(100, 2), {65537}, {33, 65, 129, 2, 1}, {5000, 5000}};
		mc::parallel(huge.size() * 4, [&](u64 i) {
			const V& c = huge[i / 4]; Integer off = offs[i % 4]; size_t n = std::accumulate(c.begin(), c.end(), 0); V cs = c; std::sort(cs.begin(), cs.end()); mc::current("perm(cycles)", "perm(cycles " + S(c) + "," + mc::str(off) + ")");
			for (int k = 0; k < 3; k++) { vh::Script s({}, i * 3 + k); V v = Random::perm(c, off); mc::step(); if (!isP(v, off, n) || cyclesOf(sub(v, off)) != cs) { mc::violation("perm(cycles):invalid", "perm(cycles " + S(c) + "," + mc::str(off) + ") does not have these cycles"); return; } } mc::trace(); mc::nontrivial(); mc::state(mc::comb(i, 77));
		});
		std::vector<std::pair<int, int>> fj = {{260, 3}, {259, 2}, {100, 50}, {150, 17}, {64, 1}, {65, 0}, {40, 7}};
		mc::parallel(fj.size() * 3, [&](u64 i) {
			auto [n, nf] = fj[i / 3]; Integer off = offs[i % 3]; V fx; for (int k = 0; k < nf; k++) fx.push_back(off + (k * 37 + 5) % n); if (nf) fx.push_back(fx[0]); std::set<Integer> u(fx.begin(), fx.end()); std::vector<u64> fac; for (int k = 1; k <= n - (int)u.size(); k++) fac.push_back(k);
			choices("perm(fix)", "perm(" + mc::str(n) + ", fix " + S(fx) + "," + mc::str(off) + ")", [&, n = n] { return Random::perm(n, fx, off); }, fac, n);
			vh::Script s({}, i); V v = Random::perm(n, fx, off); bool ok = isP(v, off, n); for (Integer x : fx) ok = ok && v[x - off] == x; if (!ok) mc::violation("perm(fix):invalid", "perm(" + mc::str(n) + ", fix " + S(fx) + "," + mc::str(off) + ") is invalid");
		});
	}
	mc::parallel(1, [&](u64) {
		for (const V& c : std::vector<V>{{0}, {-1}, {0, 1}, {1, 0}, {2, 0, 2}, {3, -1}, {-1, 3}, {5, -5}, {-2, 2}, {MN}, {4, -2, 1}}) refused("perm(cycles)", "perm(cycles " + S(c) + ")", [&] { Random::perm(c); });
		for (Integer n = 0; n <= 4; n++) for (Integer off : offs) for (Integer d : {Integer(-1), n, n + 1, Integer(-5)}) { Integer x = (Integer)((u64)off + (u64)d); if ((d < 0) != (x < off)) continue; refused("perm(fix)", "perm(" + mc::str(n) + ", fix [" + mc::str(x) + "], " + mc::str(off) + ")", [&] { Random::perm(n, V{x}, off); }); if (n) refused("perm(fix)", "perm(" + mc::str(n) + ", fix [" + mc::str(off) + "," + mc::str(x) + "], " + mc::str(off) + ")", [&] { Random::perm(n, V{off, x}, off); }); }
		refused("perm(fix)", "perm(-1, fix [])", [&] { Random::perm(-1, V{}); });
	});
	mc::sample("perm(5, fix [0,0]): element 0 stays fixed and each of the 24 permutations is equally likely");
	return mc::finish();
}
