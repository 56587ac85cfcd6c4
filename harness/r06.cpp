// R06: partition, string, bracketSequence: valid and exactly uniform
#include "r_law.h"
using V = std::vector<Integer>;
// exact probability of each next character after every prefix, by bisection over the engine word
static Real catalan(int opens, int height) { // number of ways to complete with `opens` opening brackets left at this height
	static std::map<std::pair<int, int>, Real> m; if (opens == 0) return 1; auto k = std::make_pair(opens, height); if (m.count(k)) return m[k]; return m[k] = catalan(opens - 1, height + 1) + (height ? catalan(opens, height - 1) : 0);
}
static std::string run(int n, const std::vector<u64>& w, bool custom) { vh::Script s(w); return custom ? Random::bracketSequence(n, '[', ']') : Random::bracketSequence(n); }
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	// partitions
	struct J { Integer n, k, min; }; std::vector<J> js; for (Integer n = 1; n <= (T ? 11 : 10); n++) for (Integer k = 1; k <= n; k++) for (Integer m = -2; m <= 4; m++) if (m <= 0 || k * m <= n) js.push_back({n, k, m});
	mc::parallel(js.size(), [&](u64 i) {
		auto [n, k, m] = js[i]; std::set<std::string> want; V v; std::function<void(Integer)> rec = [&, n = n, k = k, m = m](Integer left) { if ((Integer)v.size() + 1 == k) { if (left >= m) { v.push_back(left); want.insert(S(v)); v.pop_back(); } return; } for (Integer x = m; x <= left - (k - (Integer)v.size() - 1) * m; x++) { v.push_back(x); rec(left - x); v.pop_back(); } };
		Integer s = n - (m - 1) * k - 1; u64 D = lcmRange(s - (k - 1) + 1, s); double leaves = std::pow((double)std::max<u64>(D, 1), k - 1); std::string nm = "partition(" + mc::str(n) + "," + mc::str(k) + "," + mc::str(m) + ")"; if (leaves <= (T ? 1e8 : 2e7)) rec(n);
		if (leaves <= (m >= 1 ? T ? 1e8 : 2e7 : T ? 2e7 : 2e6)) { uniformOver("partition", nm, D, [&, n = n, k = k, m = m] { return Random::partition(n, k, m); }, want); if (m == 1) uniformOver("partition", nm + " default", D, [&, n = n, k = k] { return Random::partition(n, k); }, want); }
		else if (leaves <= 4e6) { mc::current("partition", nm); vh::exploreGrid(D, [&, n = n, k = k, m = m] { auto r = Random::partition(n, k, m); if (!want.count(S(r))) mc::violation("partition:impossible", nm + " gives " + S(r)); }); env::source = nullptr; }
	});
	auto E = edgeWords(false); std::vector<u64> E3 = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAABull, 0x123456789abcdef0ull};
	std::vector<J> big = {{100, 10, 1}, {100, 10, 10}, {100, 100, 1}, {1, 1, 1}, {MX / 2, 3, 1}, {MX, 1, 1}, {MX, 2, 1}, {MX - 10, 5, 7}, {30, 4, -100}, {5, 20, 0}, {5, 3, -1000000}, {1000000, 7, 3}, {MX, 1, MX}, {MX, 3, MX / 3}, {10, 10, 1}, {1, 5, 0}, {1, 5, -7}, {MX, 4, MX / 8}};
	mc::parallel(big.size(), [&](u64 i) { auto [n, k, m] = big[i]; auto ok = [n = n, k = k, m = m](const V& v) { if ((Integer)v.size() != k) return false; __int128 s = 0; for (Integer x : v) { if (x < m) return false; s += x; } return s == n; }; for (auto& w : {std::make_pair(&E, 2), std::make_pair(&E3, 4)}) edgeRuns("partition", "partition(" + mc::str(n) + "," + mc::str(k) + "," + mc::str(m) + ")", [&, n = n, k = k, m = m] { return Random::partition(n, k, m); }, ok, *w.first, w.second); });
	// strings
	std::vector<std::string> al = {"a", "ab", "xyz", "aab", "abcd", std::string("\0\xff", 2), "()[]{}"};
	mc::parallel(al.size() * 5, [&](u64 i) { const std::string& a = al[i / 5]; int n = i % 5; u64 D = a.size(); std::map<std::string, u64> c, want; u64 leaves = vh::exploreGrid(D * 2, [&] { c[Random::string(n, a)]++; }); env::source = nullptr; mc::state(mc::comb(i, 5)); mc::nontrivial(); for (u64 k = 0; k < mc::ipow(a.size(), n); k++) { std::string s; if (n) for (int d : mc::digits(k, a.size(), n)) s += a[d]; want[s]++; } std::string nm = "string(" + mc::str(n) + "," + mc::esc(a) + ")"; for (auto& x : c) if (!want.count(x.first)) mc::violation("string:impossible", nm + " gives " + mc::esc(x.first)); for (auto& x : want) if (c[x.first] * mc::ipow(a.size(), n) != leaves * x.second) mc::violation("string:uniform", nm + " gives " + mc::esc(x.first) + " with probability " + mc::str(c[x.first]) + "/" + mc::str(leaves)); });
	mc::parallel(1, [&](u64) { std::set<std::string> az; for (char c = 'a'; c <= 'z'; c++) az.insert("\"" + std::string(1, c) + "\""); uniformOver("string", "string(1)", 52, [] { return Random::string(1); }, az); std::set<std::string> az2; for (char c = 'a'; c <= 'z'; c++) for (char d = 'a'; d <= 'z'; d++) az2.insert("\"" + std::string(1, c) + d + "\""); uniformOver("string", "string(2)", 26, [] { return Random::string(2); }, az2);
		edgeRuns("string", "string(50,abc)", [] { return Random::string(50, "abc"); }, [](const std::string& s) { return s.size() == 50 && s.find_first_not_of("abc") == s.npos; }, E, 2); edgeRuns("string", "string(3)", [] { return Random::string(3); }, [](const std::string& s) { return s.size() == 3 && s.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == s.npos; }, E3, 3); });
	// bracket sequences: the complete tree of prefixes; each next character has its exact probability
	int NB = T ? 8 : 7;
	struct P { int n; std::string pre; std::vector<u64> words; };
	for (int n = 0; n <= NB; n++) {
		std::vector<P> lvl = {{n, "", {}}};
		for (int pos = 0; pos < 2 * n; pos++) {
			// expand in the parent process deterministically, check in parallel
			mc::parallel(lvl.size(), [&](u64 i) {
				P p = lvl[i]; int open = std::count(p.pre.begin(), p.pre.end(), '('), h = 2 * open - pos; mc::current("bracketSequence", "n=" + mc::str(n) + " after " + p.pre); mc::nontrivial(); mc::state(mc::hashStr(mc::str(n) + p.pre));
				Real total = n - open > 0 || h > 0 ? catalan(n - open, h) : 1, wantOpen = n - open > 0 ? catalan(n - open - 1, h + 1) / total : 0;
				auto at = [&](u64 w) { auto ws = p.words; ws.push_back(w); std::string s = run(n, ws, false); mc::step(); if ((int)s.size() != 2 * n || s.compare(0, pos, p.pre) != 0) mc::violation("bracketSequence:prefix", "n=" + mc::str(n) + ": sequence " + s + " after prefix " + p.pre); int b = 0; bool ok = true; for (char c : s) { b += c == '(' ? 1 : c == ')' ? -1 : 1000; if (b < 0) ok = false; } if (!ok || b) mc::violation("bracketSequence:invalid", "n=" + mc::str(n) + ": " + s + " is not a balanced bracket sequence"); return (int)s.size() > pos && s[pos] == '('; };
				int G = 64, cnt = 0, flips = 0; bool last = false; for (int k = 0; k < G; k++) { bool b = at(vh::gridWord(k, G)); cnt += b; if (k && b != last) flips++; last = b; }
				bool lo = at(0), hi = at(~0ull); mc::trace();
				if (lo != at(vh::gridWord(0, G)) && wantOpen > 0.02L && wantOpen < 0.98L) flips++; 
				if (flips <= 1) { Real pr; if (lo == hi) pr = lo ? 1 : 0; else { u64 a = 0, b = ~0ull; while (b - a > 1) { u64 m = a + (b - a) / 2; if (at(m) == lo) a = m; else b = m; } pr = (Real)b / 18446744073709551616.0L; if (!lo) pr = 1 - pr; } if (std::abs(pr - wantOpen) > 1e-9L) mc::violation("bracketSequence:uniform", "n=" + mc::str(n) + ": after \"" + p.pre + "\" an opening bracket has probability " + mc::str((double)pr) + " instead of " + mc::str((double)wantOpen)); }
				else if (std::abs((Real)cnt / G - wantOpen) > 0.05L) mc::violation("bracketSequence:uniform", "n=" + mc::str(n) + ": after \"" + p.pre + "\" an opening bracket has probability about " + mc::str(cnt) + "/64 instead of " + mc::str((double)wantOpen));
				// the other engine words leading to this prefix give the same distribution: checked with a second representative of the last word
			});
			std::vector<P> nx; for (auto& p : lvl) { std::map<char, u64> rep; for (int k = 0; k < 257; k++) { auto ws = p.words; u64 w = vh::gridWord((k * 101 + 7) % 257, 257); ws.push_back(w); std::string s = run(n, ws, false); if ((int)s.size() > pos) rep.insert({s[pos], w}); if (rep.size() == 2) break; } for (auto& x : rep) { P q = p; q.pre += x.first; q.words.push_back(x.second); nx.push_back(q); } }
			lvl = nx;
		}
		u64 cat = 0; std::set<std::string> all; for (auto& p : lvl) all.insert(p.pre); cat = all.size();
		mc::parallel(1, [&](u64) { if (n && (Real)cat != catalan(n, 0)) mc::violation("bracketSequence:count", "n=" + mc::str(n) + ": " + mc::str(cat) + " different sequences instead of " + mc::str((double)catalan(n, 0))); });
	}
	// long bracket sequences: the exact probability of the next character along whole paths, as long as character i depends only on the first i engine words
	{
		std::vector<int> ns = {12, 33, 64, 100, 128, 200, 300}; if (T) for (int n : {500, 1000}) ns.push_back(n);
		mc::parallel(ns.size() * 6, [&](u64 it) {
			int n = ns[it / 6], pat = it % 6; std::vector<u64> w; for (int i = 0; i < 2 * n; i++) w.push_back((pat == 0 ? 1ull << 63 : pat == 1 ? mc::mix(i + 3) : pat == 2 ? (i % 2 ? 1ull << 60 : 15ull << 60) : pat == 3 ? (i < n ? 1ull << 58 : 63ull << 58) : pat == 4 ? (i < n / 2 ? 1ull << 58 : 1ull << 63) : mc::mix(i * 7 + 1) >> 1) ^ (mc::mix(i + 99) >> 12 | 1));
			mc::current("bracketSequence", "n=" + mc::str(n) + " path " + mc::str(pat)); std::string s0 = run(n, w, false); mc::step(); if ((int)s0.size() != 2 * n) return;
			for (int pos = 0, h = 0, open = 0; pos < 2 * n; h += s0[pos] == '(' ? 1 : -1, open += s0[pos] == '(', pos++) {
				if (n > 40 && pos % (n / 33 + 1) && pos > 3 && pos < 2 * n - 12) continue;
				Real wantOpen = (Real)(n - open) * (h + 2) / ((Real)(2 * n - pos) * (h + 1)); bool form = true; auto ws = w;
				auto at = [&](u64 x) { ws[pos] = x; std::string s = run(n, ws, false); mc::step(); if ((int)s.size() != 2 * n || s.compare(0, pos, s0, 0, pos) != 0) form = false; return form && s[pos] == '('; };
				const u64 W0 = (1ull << 40) + 12345, W1 = ~0ull - W0; bool lo = at(W0), hi = at(W1); if (!form) break; Real pr; { auto w2 = w; for (int i = pos + 1; i < 2 * n; i++) w2[i] = ~w2[i]; std::string s = run(n, w2, false); if ((int)s.size() != 2 * n || s.compare(0, pos + 1, s0, 0, pos + 1) != 0) break; } // depends on later words: other layout
				if (lo == hi) { bool mid = false; for (int k = 0; k < 64; k++) mid = mid || at(vh::gridWord(k, 64)) != lo; if (mid) break; pr = lo ? 1 : 0; }
				else { bool mono = true, last = lo; int flips = 0; for (int k = 0; k < 32; k++) { bool b = at(vh::gridWord(k, 32)); flips += b != last; last = b; } mono = flips + (last != hi) == 1; if (!mono || !form) break; u64 a = W0, b = W1; while (b - a > 1) { u64 m = a + (b - a) / 2; if (at(m) == lo) a = m; else b = m; } pr = (Real)b / 18446744073709551616.0L; if (!lo) pr = 1 - pr; }
				if (!form) break; mc::trace(); mc::nontrivial(); mc::state(mc::comb(mc::comb(n, pat), pos));
				if (std::abs(pr - wantOpen) > 1e-6L) { mc::violation("bracketSequence:uniform", "n=" + mc::str(n) + ": after " + mc::str(pos) + " characters (" + mc::str(open) + " opening) an opening bracket has probability " + mc::str((double)pr) + " instead of " + mc::str((double)wantOpen)); break; }
			}
		});
		std::vector<int> vs = {9999, 16383, 16384, 20000, 40000, 70000}; mc::parallel(vs.size(), [&](u64 i) { int n = vs[i]; mc::current("bracketSequence", "n=" + mc::str(n)); for (int pat = 0; pat < 5; pat++) { std::vector<u64> w; for (int k = 0; k < 2 * n; k++) w.push_back(pat == 0 || (pat > 2 && k >= n / 4 * (pat - 1)) ? mc::mix(k + i) : k < n ? 0 : ~0ull); if (pat == 2) for (auto& x : w) x = 1ull << 63; vh::Script sc(w); std::string s = Random::bracketSequence(n); mc::step(); int b = 0; bool ok = (int)s.size() == 2 * n; for (char c : s) { b += c == '(' ? 1 : -1; ok = ok && b >= 0; } if (!ok || b) mc::violation("bracketSequence:invalid", "bracketSequence(" + mc::str(n) + ") is invalid"); } mc::trace(); });
		// long strings and partitions
		mc::parallel(6, [&](u64 i) { int n = std::vector<int>{30, 64, 100, 257, 300, 20}[i]; std::string al; for (int k = 0; k < (i == 5 ? 256 : 3 + (int)i); k++) al += (char)(k + 1); std::vector<u64> fac(n, al.size()); choices("string", "string(" + mc::str(n) + ", " + mc::str(al.size()) + " characters)", [&] { return Random::string(n, al); }, fac, al.size()); for (Integer len : {1000, 65536, 100000}) { vh::Script s({}, len); std::string r = Random::string(len, al); mc::step(); if ((Integer)r.size() != len || r.find_first_not_of(al) != r.npos) mc::violation("string:invalid", "string(" + mc::str(len) + ") is invalid"); } });
		mc::parallel(8, [&](u64 i) { auto [n, k, m] = std::vector<J>{{100000, 300, 1}, {1000, 1000, 1}, {1000, 500, 2}, {5000, 257, -3}, {100000, 65537, 0}, {1000000, 40000, 5}, {70000, 70000, 1}, {3, 1000, 0}}[i]; mc::current("partition", mc::str(n) + "," + mc::str(k)); for (int sd = 0; sd < 3; sd++) { vh::Script s({}, i * 3 + sd); V v = Random::partition(n, k, m); mc::step(); Integer t = 0; bool ok = (Integer)v.size() == k; for (Integer x : v) t += x, ok = ok && x >= m; if (!ok || t != n) mc::violation("partition:invalid", "partition(" + mc::str(n) + "," + mc::str(k) + "," + mc::str(m) + ") is invalid"); } mc::trace(); });
	}
	for (int n = 0; n <= 3; n++) mc::parallel(1, [&](u64) { // complete trees, also for other bracket characters
		std::set<std::string> want; for (int m = 0; m < (1 << 2 * n); m++) { std::string s; int b = 0; bool ok = true; for (int i = 0; i < 2 * n; i++) { bool o = m >> i & 1; s += o ? '[' : ']'; b += o ? 1 : -1; if (b < 0) ok = false; } if (ok && b == 0) want.insert(S(s)); } u64 D = n == 3 ? 60 : n == 2 ? 24 : 4; if (n < 3) uniformOver("bracketSequence", "bracketSequence(" + mc::str(n) + ",'[',']')", D, [&] { return Random::bracketSequence(n, '[', ']'); }, want); });
	std::vector<int> bn = {1, 2, 7, 50, 1000}; mc::parallel(bn.size(), [&](u64 i) { int n = bn[i]; auto ok = [n](const std::string& s) { int b = 0; for (char c : s) { b += c == '(' ? 1 : c == ')' ? -1 : -100000; if (b < 0) return false; } return b == 0 && (int)s.size() == 2 * n; }; edgeRuns("bracketSequence", "bracketSequence(" + mc::str(n) + ")", [&] { return Random::bracketSequence(n); }, ok, n > 100 ? E3 : E, 2); edgeRuns("bracketSequence", "bracketSequence(" + mc::str(n) + ") ", [&] { return Random::bracketSequence(n); }, ok, E3, n > 100 ? 2 : 4); for (u64 w : E) { u64 calls = 0; std::function<u64()> f = [w, &calls] { return ++calls % 7 == 0 ? mc::mix(calls) : w; }; env::source = &f; { std::string s = Random::bracketSequence(n); mc::step(); if (!ok(s)) mc::violation("bracketSequence:invalid", "n=" + mc::str(n) + ": constant engine word gives " + s); } env::source = nullptr; } });
	mc::parallel(1, [&](u64) {
		for (Integer n = -2; n <= 5; n++) for (Integer k = -2; k <= 7; k++) for (Integer m = -1; m <= 6; m++) if (n <= 0 || k <= 0 || (m > 0 && k * m > n)) refused("partition", "partition(" + mc::str(n) + "," + mc::str(k) + "," + mc::str(m) + ")", [&] { Random::partition(n, k, m); });
		refused("partition", "partition(5,6)", [] { Random::partition(5, 6); }); refused("partition", "partition(MX,2,MX)", [] { Random::partition(MX, 2, MX); }); refused("partition", "partition(10,MX,1)", [] { Random::partition(10, MX, 1); });
		for (Integer n : {Integer(-1), MN, Integer(0x100000000)}) refused("string", "string(" + mc::str(n) + ",ab)", [&] { Random::string(n, "ab"); }); for (Integer n : {0, 1, 5}) refused("string", "string(" + mc::str(n) + ",\"\")", [&] { Random::string(n, ""); });
		for (Integer n : {Integer(-1), MN, Integer(0x80000000)}) refused("bracketSequence", "bracketSequence(" + mc::str(n) + ")", [&] { Random::bracketSequence(n); });
	});
	mc::sample("bracketSequence(6): after every prefix the probability of '(' (found by bisecting the engine word) is the exact ratio of completions");
	return mc::finish();
}
