// R04: distinct, perm, multiple, increasing, decreasing, nonDecreasing, nonIncreasing: exact sets of outcomes, exactly uniform
#include "r_law.h"
using V = std::vector<Integer>;
static V up(V v) { std::sort(v.begin(), v.end()); return v; }
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	struct Job { int kind, count; Integer lo, s; }; std::vector<Job> jobs;
	for (int kind = 0; kind < 6; kind++) for (int c = 0; c <= (T ? 6 : 5); c++) for (Integer s = 1; s <= 8; s++) {
		u64 D = kind == 0 || kind == 1 || kind == 2 ? lcmRange(s - c + 1, s) : kind == 3 ? s : lcmRange(s, s + c - 1); if (kind < 3 && c > s) continue; double leaves = std::pow((double)(kind == 3 ? s : D), c);
		if (leaves > (T ? 8e7 : 6e6)) continue; for (Integer lo : {Integer(0), Integer(-3), Integer(1000000007), MN, MX - s}) { if (lo != 0 && leaves > 2e5) continue; jobs.push_back({kind, c, lo, s}); } }
	std::stable_sort(jobs.begin(), jobs.end(), [](const Job& a, const Job& b) { return a.s * 10 + a.count > b.s * 10 + b.count; });
	mc::parallel(jobs.size(), [&](u64 i) {
		Job j = jobs[i]; Integer lo = j.lo, hi = lo + j.s; std::set<std::string> want; std::string a = "(" + mc::str(j.count) + "," + mc::str(lo) + "," + mc::str(hi) + ")"; int c = j.count;
		static const char* nm[] = {"distinct", "increasing", "decreasing", "multiple", "nonDecreasing", "nonIncreasing"};
		std::vector<V> seqs; if (hi == MX + 0 && 0) return; { V v(c, 0); std::function<void(int)> rec = [&](int k) { if (k == c) { seqs.push_back(v); return; } for (Integer x = 0; x < j.s; x++) { v[k] = lo + x; rec(k + 1); } }; rec(0); }
		for (auto& v : seqs) { bool ok = true; for (int p = 0; p < c && ok; p++) for (int q = 0; q < p && ok; q++) ok = j.kind == 0 ? v[p] != v[q] : j.kind == 1 ? v[q] < v[p] : j.kind == 2 ? v[q] > v[p] : j.kind == 3 ? true : j.kind == 4 ? v[q] <= v[p] : v[q] >= v[p]; if (ok) want.insert(S(v)); }
		u64 D = j.kind < 3 ? lcmRange(j.s - c + 1, j.s) : j.kind == 3 ? j.s : lcmRange(j.s, j.s + c - 1); if (j.s < 2 && j.kind < 4) D = 1; if (std::pow((double)D * j.s, c) < 3e5) D *= j.s; // also resolves independent draws
		auto run = [&](Integer l, Integer u, bool one) -> V { switch (j.kind) { case 0: return one ? Random::distinct(c, u) : Random::distinct(c, l, u); case 1: return one ? Random::increasing(c, u) : Random::increasing(c, l, u); case 2: return one ? Random::decreasing(c, u) : Random::decreasing(c, l, u); case 3: return one ? Random::multiple(c, u) : Random::multiple(c, l, u); case 4: return one ? Random::nonDecreasing(c, u) : Random::nonDecreasing(c, l, u); default: return one ? Random::nonIncreasing(c, u) : Random::nonIncreasing(c, l, u); } };
		uniformOver(nm[j.kind], nm[j.kind] + a, D, [&] { return run(lo, hi, false); }, want);
		if (lo == 0) uniformOver(nm[j.kind], nm[j.kind] + a + " without lower", D, [&] { return run(0, hi, true); }, want);
	});
	// permutations
	mc::parallel((T ? 7 : 6) * 4, [&](u64 i) { int n = i / 4; Integer off = std::vector<Integer>{0, 5, -1000000000000, MN}[i % 4]; if (n == 6 && i % 4) return; if (n == 5 && i % 4 > 1) return; V v; for (int k = 0; k < n; k++) v.push_back(off + k); std::set<std::string> want; do want.insert(S(v)); while (std::next_permutation(v.begin(), v.end())); uniformOver("perm", "perm(" + mc::str(n) + "," + mc::str(off) + ")", lcmRange(1, n), [&] { return off == 0 ? Random::perm(n) : Random::perm(n, off); }, want); });
	// larger and extreme requests: validity for all boundary engine words
	auto E = edgeWords(false); std::vector<u64> E3 = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAABull, 0x123456789abcdef0ull};
	std::vector<std::array<Integer, 3>> ex = {{3, MX - 3, MX}, {3, MN, MN + 3}, {2, MN, MX}, {5, MN, MX}, {4, -1, MX}, {4, MN, 0}, {20, 0, 20}, {50, -25, 100}, {1, MX - 1, MX}, {7, -(Integer(1) << 62), Integer(1) << 62}, {0, 3, 3}, {0, MX, MX}, {3, MX - 5, MX}, {5, MN, MN + 7}};
	mc::parallel(ex.size() * 7, [&](u64 i) {
		auto [c, lo, hi] = ex[i / 7]; int k = i % 7; std::string a = "(" + mc::str(c) + "," + mc::str(lo) + "," + mc::str(hi) + ")"; auto in = [c = c, lo = lo, hi = hi](const V& v) { if ((Integer)v.size() != c) return false; for (Integer x : v) if (x < lo || x >= hi) return false; return true; }; auto ds = [](V v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) == v.end(); };
		auto go = [&, c = c, lo = lo, hi = hi](const std::vector<u64>& w, int d) {
			if (k == 0) edgeRuns("distinct", "distinct" + a, [&] { return Random::distinct(c, lo, hi); }, [&](const V& v) { return in(v) && ds(v); }, w, d);
			if (k == 1) edgeRuns("increasing", "increasing" + a, [&] { return Random::increasing(c, lo, hi); }, [&](const V& v) { return in(v) && ds(v) && std::is_sorted(v.begin(), v.end()); }, w, d);
			if (k == 2) edgeRuns("decreasing", "decreasing" + a, [&] { return Random::decreasing(c, lo, hi); }, [&](const V& v) { return in(v) && ds(v) && std::is_sorted(v.rbegin(), v.rend()); }, w, d);
			if (k == 3) edgeRuns("multiple", "multiple" + a, [&] { return Random::multiple(c, lo, hi); }, in, w, d);
			if (k == 4) edgeRuns("nonDecreasing", "nonDecreasing" + a, [&] { return Random::nonDecreasing(c, lo, hi); }, [&](const V& v) { return in(v) && std::is_sorted(v.begin(), v.end()); }, w, d);
			if (k == 5) edgeRuns("nonIncreasing", "nonIncreasing" + a, [&] { return Random::nonIncreasing(c, lo, hi); }, [&](const V& v) { return in(v) && std::is_sorted(v.rbegin(), v.rend()); }, w, d);
			if (k == 6 && c > 0) edgeRuns("perm", "perm(" + mc::str(c) + "," + mc::str(lo) + ")", [&] { return Random::perm(c, std::min(lo, MX - c)); }, [&](const V& v) { V t = up(v); for (int q = 0; q < (int)t.size(); q++) if (t[q] != std::min(lo, MX - c) + q) return false; return (Integer)v.size() == c; }, w, d);
		};
		go(E, 2); go(E3, 4);
	});
	// larger requests: numbers of equally likely histories
	{
		struct J { int kind; Integer n, r; }; std::vector<J> js;
		for (Integer n : {300, 257, 256, 129, 128, 100, 65, 64, 33, 20, 10}) { js.push_back({0, n, n}); if (n != 300) js.push_back({1, n, n}); }
		if (T) for (Integer n : {600, 512, 400}) js.push_back({0, n, n});
		for (auto [n, r] : std::vector<std::pair<Integer, Integer>>{{100, 100}, {60, 100}, {30, 5000}, {257, 300}, {10, 3000}, {5, 20000}, {64, 128}, {33, 64}, {130, 130}}) { js.push_back({2, n, r}); js.push_back({3, n, r}); js.push_back({4, n, r}); }
		mc::parallel(js.size(), [&](u64 i) {
			J j = js[i]; std::vector<u64> fac; for (Integer k = 0; k < j.n; k++) fac.push_back(j.kind == 4 ? j.r : j.r - k); std::string a = "(" + mc::str(j.n) + "," + mc::str(j.r) + ")";
			if (j.kind == 0) choices("shuffle", "shuffle of " + mc::str(j.n), [&] { V v(j.n); std::iota(v.begin(), v.end(), 0); Random::shuffle(v); return v; }, fac, j.r);
			if (j.kind == 1) choices("perm", "perm(" + mc::str(j.n) + ")", [&] { return Random::perm(j.n); }, fac, j.r);
			if (j.kind == 2) choices("distinct", "distinct" + a, [&] { return Random::distinct(j.n, j.r); }, fac, j.r);
			if (j.kind == 3) choices("distinct", "distinct with offset" + a, [&] { return Random::distinct(j.n, -7, j.r - 7); }, fac, j.r);
			if (j.kind == 4) choices("multiple", "multiple" + a, [&] { return Random::multiple(j.n, j.r); }, fac, j.r);
		});
		// very large requests are still valid
		std::vector<Integer> ns = {999, 1000, 1001, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000};
		mc::parallel(ns.size() * 4, [&](u64 i) {
			Integer n = ns[i / 4]; mc::current("large", mc::str(n) + " kind " + mc::str(i % 4)); vh::Script s({}, i); V v; Integer lo = -n / 3;
			if (i % 4 == 0) { v.resize(n); std::iota(v.begin(), v.end(), lo); Random::shuffle(v); } else if (i % 4 == 1) v = Random::perm(n, lo); else if (i % 4 == 2) v = Random::distinct(n, lo, lo + n); else { v = Random::nonDecreasing(n, lo, lo + n); mc::step(); bool ok = (Integer)v.size() == n; for (size_t k = 0; k < v.size(); k++) ok = ok && v[k] >= lo && v[k] < lo + n && (!k || v[k - 1] <= v[k]); if (!ok) mc::violation("nonDecreasing:invalid", "nonDecreasing of " + mc::str(n) + " numbers is invalid"); return; }
			mc::step(); bool ok = (Integer)v.size() == n; if (ok) { std::vector<bool> seen(n); for (Integer x : v) { if (x < lo || x >= lo + n || seen[x - lo]) { ok = false; break; } seen[x - lo] = true; } } if (!ok) mc::violation("large:invalid", std::string(i % 4 == 0 ? "shuffle" : i % 4 == 1 ? "perm" : "distinct") + " of " + mc::str(n) + " elements is not a permutation"); mc::trace(); mc::state(mc::comb(n, i % 4 + 99));
		});
		// many elements: every eighth of the positions gets its share of every eighth of the values (deviations beyond 9 standard deviations)
		struct L { int kind; Integer n, r; }; std::vector<L> ls; for (Integer n : {2000, 9000, 70000}) for (int k = 0; k < 8; k++) { ls.push_back({k, n, n}); if (k > 1) ls.push_back({k, n, k == 2 ? 3 * n : 3}); if (k == 2 || k == 3) ls.push_back({k, n, 1000000000000}); if (k == 3) ls.push_back({k, n, 8}); }
		mc::parallel(ls.size(), [&](u64 i) {
			auto [kind, n, r] = ls[i]; if (kind > 3 && r < n) { if (kind < 6) return; } static const char* nm[] = {"shuffle", "perm", "distinct", "multiple", "increasing", "decreasing", "nonDecreasing", "nonIncreasing"};
			std::string name = std::string(nm[kind]) + " of " + mc::str(n) + " out of " + mc::str(r); mc::current("large", name); mc::nontrivial(); mc::state(mc::hashStr(name)); Integer lo = kind == 0 ? 0 : i % 3 == 0 ? 0 : -777; if (kind > 3 && kind < 6) r = 4 * n;
			std::vector<std::vector<double>> c(8, std::vector<double>(8)); Integer B = std::min<Integer>(8, r); Real R = 0; const int runs = n > 50000 ? 3 : 12; bool sorted = kind > 3, down = kind == 5 || kind == 7;
			for (int run = 0; run < runs; run++) { vh::Script s({}, i * 100 + run); V v; if (kind == 0) { v.resize(n); std::iota(v.begin(), v.end(), 0); Random::shuffle(v); } if (kind == 1) v = Random::perm(n, lo); if (kind == 2) v = Random::distinct(n, lo, lo + r); if (kind == 3) v = Random::multiple(n, lo, lo + r); if (kind == 4) v = Random::increasing(n, lo, lo + r); if (kind == 5) v = Random::decreasing(n, lo, lo + r); if (kind == 6) v = Random::nonDecreasing(n, lo, lo + r); if (kind == 7) v = Random::nonIncreasing(n, lo, lo + r);
				mc::step(); if ((Integer)v.size() != n) { mc::violation(std::string(nm[kind]) + ":invalid", name + " has " + mc::str(v.size()) + " elements"); return; }
				for (Integer k = 0; k < n; k++) { Integer x = v[k] - lo; if (x < 0 || x >= r || (sorted && k && (down ? v[k - 1] < v[k] : v[k - 1] > v[k]))) { mc::violation(std::string(nm[kind]) + ":invalid", name + " gives " + mc::str(v[k]) + " at position " + mc::str(k)); return; } c[k * 8 / n][r < 8 ? x : (Integer)((__int128)x * 8 / r)]++; } }
			mc::trace(); Real per = (Real)n * runs;
			auto bad = [&](int a, int b, double got, Real want) { mc::violation(std::string(nm[kind]) + ":large", name + ": " + mc::str((Integer)got) + " instead of about " + mc::str((Integer)want) + " elements" + (a < 0 ? "" : " of eighth " + mc::str(a) + " of the positions") + " come from part " + mc::str(b) + " of the values"); };
			for (int b = 0; b < B; b++) { Integer width = r < 8 ? 1 : 0; if (!width) { Integer f = ((__int128)b * r + 7) / 8, t = ((__int128)(b + 1) * r + 7) / 8; width = t - f; } R = (Real)width / r;
				if (sorted) { // the share of the values only: the sum over all positions (a sorted multiset spreads like a geometric walk, allow its wider deviation)
					double got = 0; for (int a = 0; a < 8; a++) got += c[a][b]; Real sd = kind < 6 ? std::sqrt(per * R) : r < n ? (Real)n * std::sqrt((Real)runs) : std::sqrt(per * R) * 2; if (kind > 5 && r < n) { if (got <= 0) bad(-1, b, got, per * R); continue; } if (std::abs(got - per * R) > 9 * sd + 9) { bad(-1, b, got, per * R); return; } }
				else for (int a = 0; a < 8; a++) { Integer pw = ((Integer)(a + 1) * n + 7) / 8 - ((Integer)a * n + 7) / 8; Real want = (Real)pw * runs * R; if (std::abs(c[a][b] - want) > 9 * std::sqrt(want) + 9) { bad(a, b, c[a][b], want); return; } } }
		});
	}
	// all multiplicities of sorted sequences: more values than positions and the reverse
	mc::parallel(1, [&](u64) {
		auto fn = [&](const std::string& n, auto f) { refused(n.substr(0, n.find('(')), n, f); };
		for (Integer c : {Integer(-1), Integer(-5), MN}) { std::string s = mc::str(c); fn("distinct(" + s + ",0,9)", [&] { Random::distinct(c, 0, 9); }); fn("increasing(" + s + ",0,9)", [&] { Random::increasing(c, 0, 9); }); fn("decreasing(" + s + ",0,9)", [&] { Random::decreasing(c, 0, 9); }); fn("multiple(" + s + ",0,9)", [&] { Random::multiple(c, 0, 9); }); fn("nonDecreasing(" + s + ",0,9)", [&] { Random::nonDecreasing(c, 0, 9); }); fn("nonIncreasing(" + s + ",0,9)", [&] { Random::nonIncreasing(c, 0, 9); }); fn("perm(" + s + ")", [&] { Random::perm(c); }); }
		for (Integer s = 0; s <= 5; s++) for (Integer c = s + 1; c <= 7; c++) for (Integer lo : {Integer(0), Integer(-2), MN, MX - s}) { std::string a = "(" + mc::str(c) + "," + mc::str(lo) + "," + mc::str(lo + s) + ")"; fn("distinct" + a, [&] { Random::distinct(c, lo, lo + s); }); fn("increasing" + a, [&] { Random::increasing(c, lo, lo + s); }); fn("decreasing" + a, [&] { Random::decreasing(c, lo, lo + s); }); if (s == 0) { fn("multiple" + a, [&] { Random::multiple(c, lo, lo); }); fn("nonDecreasing" + a, [&] { Random::nonDecreasing(c, lo, lo); }); fn("nonIncreasing" + a, [&] { Random::nonIncreasing(c, lo, lo); }); } }
		for (auto [l, u] : std::vector<std::pair<Integer, Integer>>{{5, 3}, {0, -1}, {MX, MN}, {1, 0}}) for (Integer c : {1, 2, 5}) { std::string a = "(" + mc::str(c) + "," + mc::str(l) + "," + mc::str(u) + ")"; fn("distinct" + a, [&, l = l, u = u] { Random::distinct(c, l, u); }); fn("increasing" + a, [&, l = l, u = u] { Random::increasing(c, l, u); }); fn("decreasing" + a, [&, l = l, u = u] { Random::decreasing(c, l, u); }); fn("multiple" + a, [&, l = l, u = u] { Random::multiple(c, l, u); }); fn("nonDecreasing" + a, [&, l = l, u = u] { Random::nonDecreasing(c, l, u); }); fn("nonIncreasing" + a, [&, l = l, u = u] { Random::nonIncreasing(c, l, u); }); }
	});
	mc::sample("distinct(4,0,5): 60^4 engine histories, each of the 120 sequences exactly 108000 times");
	return mc::finish();
}
