// R01: exact uniformity of integers, bits, discrete choices, select, shuffle, rotate over all engine outputs
#include "r_real.h"
#include <deque>
// result of one draw from word w: value, or "rejected" when a second word is wanted
struct D1 { bool ok; Integer v; };
static Words* E;
template<class F> static D1 one(F f, u64 w) { E->set({w}); try { Integer v = f(); return {true, v}; } catch (Stop&) { return {false, 0}; } }
// a boolean function of one engine word that is affine over GF(2) and not constant is exactly balanced
template<class F> static void balanced(const std::string& name, F f) {
	std::vector<u64> base; for (int i = 0; i < 64; i++) base.push_back(1ull << i);
	bool z = f(0), any = false; std::vector<int> lin(64);
	for (int i = 0; i < 64; i++) { lin[i] = f(base[i]) ^ z; any = any || lin[i]; mc::step(); }
	auto pred = [&](u64 w) { bool r = z; for (int i = 0; i < 64; i++) if (w >> i & 1) r ^= lin[i]; return r; };
	bool affine = true; u64 bad = 0;
	for (int i = 0; i < 64 && affine; i++) for (int j = 0; j < i; j++) { u64 w = base[i] ^ base[j]; mc::step(); if (f(w) != pred(w)) { affine = false; bad = w; break; } }
	u64 ones = 0, n = 0;
	for (u64 w : edgeWords(true)) { mc::step(); if (affine && f(w) != pred(w)) { affine = false; bad = w; } }
	auto sy = symWords(16); for (u64 w : sy) { mc::step(); bool b = f(w); ones += b; n++; if (affine && b != pred(w)) { affine = false; bad = w; } }
	for (u64 k = 0; k < 4096; k++) { u64 w = mc::mix(k); mc::step(); if (affine && f(w) != pred(w)) { affine = false; bad = w; } }
	mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(name));
	if (affine) { if (!any) mc::violation(name + ":constant", name + " always gives " + mc::str(z)); }
	else if (ones * 2 != n) mc::violation(name + ":bias", name + " gives 1 for " + mc::str(ones) + " of the " + mc::str(n) + " words whose leading and trailing 16 bits run through all patterns (not affine at " + mc::str(bad) + ")");
}
// all ranges of s values starting at lower: every value gets the same number of engine words.
static void uniform(Integer lower, u64 s, bool viaUpper, u64 probes) {
	Integer upper = (Integer)((u64)lower + s); auto f = [&] { return viaUpper ? Random::integer(upper) : Random::integer(lower, upper); };
	std::string nm = "integer(" + mc::str(lower) + "," + mc::str(upper) + ")"; mc::current("integer", nm); mc::trace();
	auto rank = [&](Integer v) { return (u64)v - (u64)lower; };
	// draws with a rejected first word take the result from the next ones and may only use these
	auto at = [&](u64 w, u64& r) { D1 d = one(f, w); mc::step(); if (d.ok) { r = rank(d.v); if (r >= s) { mc::violation("integer:range", nm + " gives " + mc::str(d.v) + " for engine word " + mc::str(w)); r = s - 1; } } return d.ok; };
	// nearest accepted word at or below/above w
	auto near = [&](u64 w, int dir, u64& r) { for (int k = 0; k < 64; k++) { if (at(w, r)) return true; if ((dir < 0 && w == 0) || (dir > 0 && w == ~0ull)) return false; w += dir; } return false; };
	u64 r;
	// first word of rank v: the word space is scanned by bisection; results must be monotone in the word or counted on a grid
	auto mono = [&] { u64 last = 0; for (u64 k = 0; k < 256; k++) { u64 x; if (!near(vh::gridWord(k, 256), 1, x)) return false; if (x < last) return false; last = x; } return true; };
	bool up = mono();
	if (!up) { // other layouts: exact count over an equidistant grid of a multiple of s words
		if (s > 4096) return; std::map<u64, u64> c; for (u64 k = 0; k < 16 * s; k++) if (at(vh::gridWord(k, 16 * s), r)) c[r]++;
		std::map<u64, u64> m; for (u64 k = 0; k < 16 * s; k++) if (at(mc::mix(k + 77), r)) m[r]++;
		for (u64 v = 0; v < s; v++) if (!c[v] && !m[v]) mc::violation("integer:unreached", nm + " never gives " + mc::str((Integer)((u64)lower + v)));
		return;
	}
	auto first = [&](u64 v) { // smallest accepted word with rank >= v (2^64 if none)
		u64 lo = 0, hi = ~0ull; if (!near(hi, -1, r) || r < v) return (__float128)18446744073709551616.0;
		while (lo < hi) { u64 mid = lo + (hi - lo) / 2, x; u64 w = mid; bool ok = near(w, 1, x); if (ok && x >= v) hi = mid; else if (!ok) lo = mid + 1; else lo = mid + 1; }
		// skip rejected words to the first accepted
		u64 w = lo; while (!at(w, r) && w != ~0ull) w++; return (__float128)w;
	};
	std::vector<u64> vs; if (s <= probes) for (u64 v = 0; v < s; v++) vs.push_back(v);
	else for (u64 k = 0; k < probes / 3; k++) { vs.push_back(k); vs.push_back(s - 1 - k); vs.push_back((u64)((__float128)s * k / (probes / 3)) % s); }
	bool have = false; u64 cnt = 0;
	for (u64 v : vs) {
		__float128 a = first(v), b = v + 1 < s ? first(v + 1) : (__float128)18446744073709551616.0;
		// number of accepted words with rank exactly v: [a, b) minus rejected ones close to either end
		u64 n; if (b - a < 200) { n = 0; for (u64 w = (u64)a; (__float128)w < b; w++) { if (at(w, r) && r == v) n++; if (w == ~0ull) break; } }
		else { n = (u64)(b - a); u64 x = (u64)a, y = (u64)(b - 1); for (int k = 0; k < 48; k++) { if (!at(x + k, r) || r != v) n--; if (!at(y - k, r) || r != v) n--; } }
		if (!have) { have = true; cnt = n; } else if (n != cnt) { mc::violation("integer:bias", nm + ": value " + mc::str((Integer)((u64)lower + v)) + " is produced by " + mc::str(n) + " engine words, value " + mc::str((Integer)((u64)lower + vs[0])) + " by " + mc::str(cnt)); return; }
		if (n == 0) { mc::violation("integer:unreached", nm + " never gives " + mc::str((Integer)((u64)lower + v))); return; }
	}
	mc::nontrivial(); mc::state(mc::comb(mc::comb((u64)lower, s), viaUpper));
	// inside the buckets nothing else is rejected unevenly: an equidistant grid of 8 words per value
	if (s <= 256) { std::map<u64, u64> c; for (u64 k = 0; k < 8 * s; k++) if (at(vh::gridWord(k, 8 * s), r)) c[r]++; for (u64 v = 0; v < s; v++) if (c[v] != c[0]) { mc::violation("integer:grid", nm + ": counts on an equidistant grid differ"); break; } }
	// rejected words are replaced by fresh draws, never mapped
	for (u64 w : edgeWords(false)) { E->set({w, vh::gridWord(s > 1000 ? 500 : 2 * 0, s > 1000 ? 1000 : 8 * s)}); mc::step(); try { Integer v = f(); if (rank(v) >= s) mc::violation("integer:range", nm + " gives " + mc::str(v)); } catch (Stop&) {} }
}
// draws after rejected words: exact counts per value, conditional on the words drawn before
struct Level { bool ok = true; std::vector<__float128> cnt; std::vector<u64> rej; };
static Level level(Integer lower, u64 s, const std::vector<u64>& prefix) {
	Level L; L.cnt.assign(s, 0); auto f = [&](u64 w) -> int { auto p = prefix; p.push_back(w); E->set(p); mc::step(); try { u64 r = (u64)Random::integer(lower, lower + (Integer)s) - (u64)lower; return r < s ? (int)r : (int)s; } catch (Stop&) { return -1; } };
	auto up = [&](u64 w) { for (int k = 0; k < 64; k++) { int r = f(w + k); if (r >= 0) return r; if (w + k == ~0ull) return (int)s; } return -2; };
	int last = 0; for (u64 k = 0; k < 64; k++) { int x = up(vh::gridWord(k, 64)); if (x < last) { L.ok = false; return L; } last = x; }
	std::vector<__float128> b = {0}; for (u64 v = 1; v < s; v++) { u64 lo = 0, hi = ~0ull; while (lo < hi) { u64 mid = lo + (hi - lo) / 2; int x = up(mid); if (x >= (int)v) hi = mid; else lo = mid + 1; } b.push_back(lo); }
	b.push_back((__float128)18446744073709551616.0); std::set<u64> near; for (auto x : b) for (int k = -80; k < 80; k++) { __float128 w = x + k; if (w >= 0 && w < b.back()) near.insert((u64)w); }
	for (u64 v = 0; v < s; v++) L.cnt[v] = b[v + 1] - b[v];
	for (u64 w : near) { int x = f(w); u64 v = 0; while ((__float128)w >= b[v + 1]) v++; if (x == (int)v) continue; L.cnt[v]--; if (x < 0) L.rej.push_back(w); else if (x < (int)s) L.cnt[x]++; else L.ok = false; }
	for (u64 k = 0; k < 200 && L.ok; k++) { u64 w = vh::gridWord(k, 200) + 0x1234567; int x = f(w); u64 v = 0; while ((__float128)w >= b[v + 1]) v++; if (x != (int)v && !near.count(w)) L.ok = false; } // rejections elsewhere: cannot be enumerated
	return L;
}
static void retries(Integer lower, u64 s) { std::string nm = "integer(" + mc::str(lower) + "," + mc::str(lower + (Integer)s) + ")"; mc::current("retries", nm);
	std::vector<std::vector<u64>> pre = {{}}; for (int d = 0; d < 4 && !pre.empty(); d++) {
		std::vector<__float128> tot(s, 0); std::vector<std::vector<u64>> next; bool ok = true;
		for (auto& p : pre) { Level L = level(lower, s, p); mc::trace(); mc::state(mc::comb(mc::comb(s, (u64)lower), mc::comb(d, p.size() ? p.back() : 0))); ok = ok && L.ok; for (u64 v = 0; v < s; v++) tot[v] += L.cnt[v]; for (u64 r : L.rej) { next.push_back(p); next.back().push_back(r); } }
		if (!ok) return; if (d) mc::nontrivial();
		for (u64 v = 1; v < s; v++) if (tot[v] != tot[0]) { mc::violation("integer:retry-bias", nm + ": after " + mc::str(d) + " rejected words the values " + mc::str(lower) + " and " + mc::str(lower + (Integer)v) + " are produced by " + mc::str((u64)(tot[0] / pre.size())) + " and " + mc::str((u64)(tot[v] / pre.size())) + " engine words on average"); return; }
		if (next.size() > (mc::thorough ? 400u : 40u)) return; pre = next;
	} }
// long runs of rejected words: every further word is used as if it was the first
static void chain(Integer lower, u64 s) {
	std::string nm = "integer(" + mc::str(lower) + "," + mc::str(lower + (Integer)s) + ")"; mc::current("chain", nm);
	Level L0 = level(lower, s, {}); if (!L0.ok || L0.rej.empty()) return; for (auto& c : L0.cnt) if (c != L0.cnt[0]) return;
	u64 r = L0.rej[0], r2 = L0.rej.back();
	for (unsigned k : {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001}) {
		std::vector<u64> p; for (unsigned q = 0; q < k; q++) p.push_back(q % 3 ? r : r2); Level L = level(lower, s, p); mc::trace(); mc::nontrivial(); mc::state(mc::comb(mc::comb(s, (u64)lower), k + 1000)); if (!L.ok) return;
		for (u64 v = 1; v < s; v++) if (L.cnt[v] != L.cnt[0]) { mc::violation("integer:retry-bias", nm + ": after " + mc::str(k) + " rejected words the values " + mc::str(lower) + " and " + mc::str(lower + (Integer)v) + " are not equally likely"); return; }
		if (k < 4) for (auto& c : L.cnt) if (c != L0.cnt[0]) return; // rejections depend on the words before
	}
}
template<class T, class F> static void law(const std::string& name, u64 D, F f, const std::map<T, u64>& weight, u64 items = 1) {
	std::map<T, u64> c; u64 leaves = vh::exploreGrid(D, [&] { c[f()]++; }); u64 tot = 0; for (auto& x : weight) tot += x.second;
	mc::nontrivial(); mc::state(mc::hashStr(name)); E->set({}); env::source = &E->fn;
	for (auto& x : c) if (!weight.count(x.first) || weight.at(x.first) == 0) { mc::violation(name.substr(0, name.find('(')) + ":impossible", name + " gives an impossible outcome " + x.first); return; }
	for (auto& x : weight) if (c[x.first] * tot != leaves * x.second) { mc::violation(name.substr(0, name.find('(')) + ":law", name + ": outcome " + x.first + " has probability " + mc::str(c[x.first]) + "/" + mc::str(leaves) + " instead of " + mc::str(x.second) + "/" + mc::str(tot)); return; }
}
template<class C> static std::string S(const C& c) { std::string r; for (auto& x : c) r += mc::str(x) + ","; return r; }
static u64 lcmTo(int n) { u64 l = 1; for (int i = 2; i <= n; i++) l = std::lcm(l, (u64)i); return l; }
template<Integer... W> static void disc() {
	std::vector<u64> w = {(u64)W...}; u64 s = 0; for (u64 x : w) s += x; std::map<std::string, u64> m; for (size_t i = 0; i < w.size(); i++) if (w[i]) m[mc::str(i)] = w[i];
	law<std::string>("discrete(" + S(w) + ")", 2 * s, [] { return mc::str(Random::discrete<W...>()); }, m);
}
template<class V> static void perms(const std::string& nm, V v, u64 D) {
	std::map<std::string, u64> m; V s = v; std::sort(s.begin(), s.end()); do m[S(s)] = 1; while (std::next_permutation(s.begin(), s.end()));
	mc::current("shuffle", nm); law<std::string>(nm, D, [&] { V t = v; Random::shuffle(t); return S(t); }, m);
}
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	static Words e; E = &e;
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	// small ranges at many offsets
	std::vector<Integer> lows = {0, 1, -1, -5, 7, -1000000007, 1000000007, MN, MN + 1, MX - 2000, -(Integer(1) << 32), (Integer(1) << 32) - 3};
	unsigned S1 = T ? 1030 : 130;
	mc::parallel(S1 * lows.size(), [&](u64 i) { uniform(lows[i % lows.size()], 1 + i / lows.size(), false, i / lows.size() < 130 ? 1100 : 60); });
	mc::parallel(T ? 600 : 64, [&](u64 i) { uniform(0, i + 1, true, 100); });
	mc::parallel(lows.size() * 12, [&](u64 i) { if (i / 12 < 4 || T) retries(lows[i / 12], 2 + i % 12); });
	mc::parallel(6, [&](u64 i) { chain(i % 2 ? -5 : 0, std::vector<u64>{3, 7, 10}[i / 2]); });
	// large ranges: around powers of two, 3*2^k, and the full range
	std::vector<u64> big;
	for (int b = 10; b < 64; b++) for (int d = -2; d <= 2; d++) { big.push_back((1ull << b) + d); if (T || b % 3 == 0) big.push_back((1ull << b) / 2 * 3 + d); }
	for (u64 s : {~0ull, ~0ull - 1, ~0ull - 2, 0xFFFFFFFF00000000ull, 0xFFFFFFFF00000001ull, 0x5555555555555555ull, 0x5555555555555556ull, 0xAAAAAAAAAAAAAAABull, 12345678901234567ull}) big.push_back(s);
	mc::parallel(big.size() * 3, [&](u64 i) { u64 s = big[i / 3]; Integer lo = i % 3 == 0 ? MN : i % 3 == 1 ? (Integer)((u64)MX - s) : -(Integer)(s / 2); if ((u64)lo + s == (u64)MN && 0) return; if ((Integer)((u64)lo + s) <= lo) return; uniform(lo, s, false, T ? 60 : 18); if (s <= (u64)MX && i % 3 == 2) uniform(0, s, true, 9); });
	// 64-bit multiplication: every single-bit and boundary word against exact arithmetic via monotonicity and bijection checks
	mc::parallel(4, [&](u64 lane) { // integer(): no two words of a 16-bit lane collide, and all edge words differ
		std::set<Integer> seen; for (u64 k = 0; k < 65536; k++) { D1 d = one([] { return Random::integer(); }, 0x123456789abcdef1ull ^ (k << (16 * lane))); mc::step(); if (!d.ok || !seen.insert(d.v).second) { mc::violation("integer64:bijection", "integer() maps two engine words to the same value " + mc::str(d.v)); break; } }
		std::set<Integer> s2; auto ew = edgeWords(true); for (u64 w : ew) { D1 d = one([] { return Random::integer(); }, w); mc::step(); if (!d.ok || !s2.insert(d.v).second) { mc::violation("integer64:bijection", "integer() maps two engine words to the same value " + mc::str(d.v)); break; } } mc::trace();
		if (*s2.begin() > MN + 1 || *s2.rbegin() < MX - 1) mc::violation("integer64:range", "integer() does not reach the ends of the 64-bit range");
	});
	mc::parallel(1, [&](u64) {
		balanced("bit", [](u64 w) { E->set({w}); return (bool)Random::bit(); });
		std::pair<int, int> p{1, 2}; balanced("select(pair)", [&](u64 w) { E->set({w}); int r = Random::select(p); if (r != 1 && r != 2) mc::violation("select:pair", "select(pair) gives a foreign value"); return r == 2; });
		std::complex<double> z(1, 2); balanced("select(complex)", [&](u64 w) { E->set({w}); double r = Random::select(z); if (r != 1 && r != 2) mc::violation("select:complex", "select(complex) gives a foreign value"); return r == 2; });
		balanced("shuffle(pair)", [&](u64 w) { E->set({w}); auto q = p; Random::shuffle(q); if (q != p && q != std::make_pair(2, 1)) mc::violation("shuffle:pair", "shuffle(pair) loses a value"); return q != p; });
		balanced("shuffle(complex)", [&](u64 w) { E->set({w}); auto q = z; Random::shuffle(q); if (q != z && q != std::complex<double>(2, 1)) mc::violation("shuffle:complex", "shuffle(complex) loses a value"); return q != z; });
	});
	mc::parallel(1, [&](u64) { // empty ranges
		for (Integer a : {Integer(0), Integer(1), Integer(-1), Integer(5), MN, MX}) for (Integer b : {Integer(0), Integer(-1), Integer(1), Integer(5), MN, MX}) if (a >= b) { E->set({5, 6, 7}); mc::step(); mc::current("integer:empty", mc::str(a) + " " + mc::str(b)); if (!vh::refuses([&] { Random::integer(a, b); })) mc::violation("integer:empty", "integer(" + mc::str(a) + "," + mc::str(b) + ") was not refused"); if (a == 0) { E->set({5, 6, 7}); if (!vh::refuses([&] { Random::integer(b); })) mc::violation("integer:empty", "integer(" + mc::str(b) + ") was not refused"); } }
		std::vector<int> v; E->set({5, 6}); if (!vh::refuses([&] { Random::select(v); })) mc::violation("select:empty", "select from an empty vector was not refused"); E->set({5, 6}); if (!vh::refuses([&] { Random::select(v.begin(), v.end()); })) mc::violation("select:empty", "select from an empty range was not refused");
		E->set({5, 6}); Random::shuffle(v); std::vector<int> w = {3}; Random::shuffle(w); if (w != std::vector<int>{3} || !v.empty()) mc::violation("shuffle:trivial", "shuffle changes a trivial container"); mc::trace();
	});
	mc::parallel(1, [&](u64) { disc<1>(); disc<1, 1>(); disc<1, 2, 3>(); disc<0, 1>(); disc<1, 0>(); disc<0, 2, 0, 3, 0>(); disc<0, 0, 5>(); disc<7, 1, 7, 1>(); disc<100, 1>(); disc<1, 100>(); disc<1, 1, 1, 1, 1, 1, 1>(); disc<3, 0, 0, 1>(); disc<1000, 999, 1>(); });
	// select / shuffle / rotate
	mc::parallel(12, [&](u64 i) {
		int n = i + 1; std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(10 * k + 3); const auto& cv = v; std::map<std::string, u64> m; for (int x : v) m[mc::str(x)] = 1; std::string N = "(" + mc::str(n) + ")"; mc::current("select", N);
		law<std::string>("select" + N, 4 * n, [&] { return mc::str(Random::select(v)); }, m); law<std::string>("select" + N, 4 * n, [&] { return mc::str(Random::select(cv)); }, m);
		law<std::string>("select" + N, 4 * n, [&] { return mc::str(Random::select(v.begin(), v.end())); }, m); std::deque<int> dq(v.begin(), v.end()); law<std::string>("select" + N, 4 * n, [&] { return mc::str(Random::select(dq)); }, m);
		law<std::string>("select" + N, 4 * n, [&] { return mc::str(Random::select(std::vector<int>(v))); }, m);
		if (n > 1) law<std::string>("select" + N, 4 * (n - 1), [&] { return mc::str(Random::select(v.begin() + 1, v.end())); }, [&] { auto t = m; t.erase("3"); return t; }(), 1);
		{ std::string s = std::string("abcdefghijkl").substr(0, n); std::map<std::string, u64> ms; for (char c : s) ms[std::string(1, c)] = 1; law<std::string>("select" + N, 4 * n, [&] { return std::string(1, Random::select(s)); }, ms); law<std::string>("select" + N, 4 * n, [&] { return std::string(1, Random::select(std::string_view(s))); }, ms); }
		{ auto t = v; E->set({vh::gridWord(0, 4 * n)}); int& ref = Random::select(t); ref = -1; if (std::count(t.begin(), t.end(), -1) != 1) mc::violation("select:reference", "select from a container is not a reference into it"); }
		std::map<std::string, u64> rm; for (int k = 0; k < n; k++) { auto t = v; std::rotate(t.begin(), t.begin() + k, t.end()); rm[mc::str(k) + ":" + S(t)] = 1; }
		law<std::string>("rotate" + N, 4 * n, [&] { auto t = v; Integer r = Random::rotate(t); return mc::str(r) + ":" + S(t); }, rm); law<std::string>("rotate" + N, 4 * n, [&] { auto t = v; Integer r = Random::rotate(t.begin(), t.end()); return mc::str(r) + ":" + S(t); }, rm);
	});
	mc::parallel(1, [&](u64) { std::map<std::string, u64> m{{"1", 1}, {"5", 1}, {"9", 1}}; law<std::string>("select(list)", 12, [] { return mc::str(Random::select({1, 5, 9})); }, m); int arr[3] = {1, 5, 9}; const int carr[3] = {1, 5, 9}; law<std::string>("select(array)", 12, [&] { return mc::str(Random::select(arr)); }, m); law<std::string>("select(array)", 12, [&] { return mc::str(Random::select(carr)); }, m); std::array<int, 3> sa{1, 5, 9}; law<std::string>("select(std::array)", 12, [&] { return mc::str(Random::select(sa)); }, m); std::map<std::string, u64> d{{"1", 2}, {"5", 1}}; law<std::string>("select(multiset)", 12, [] { return mc::str(Random::select({1, 5, 1})); }, d); });
	int N = T ? 6 : 5;
	mc::parallel(2 * (N + 1), [&](u64 i) { int n = i / 2; std::string s = std::string("abcdefg").substr(0, n); if (i % 2) perms("shuffle(string " + mc::str(n) + ")", s, n < 2 ? 1 : lcmTo(n)); else { std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(k); if (n < 6) perms("shuffle(vector " + mc::str(n) + ")", v, n < 2 ? 1 : lcmTo(n)); } });
	mc::parallel(1, [&](u64) { std::map<std::string, u64> m; std::vector<int> v = {1, 2, 3, 4}; std::vector<int> s = {2, 3, 4}; do m["1," + S(s) + "9,"] = 1; while (std::next_permutation(s.begin(), s.end())); law<std::string>("shuffle(range)", 12, [] { std::vector<int> t = {1, 2, 3, 4, 9}; Random::shuffle(t.begin() + 1, t.begin() + 4); return S(t); }, m); law<std::string>("shuffle(bools)", 12, [] { std::vector<bool> t = {true, false, false, false}; std::deque<int> q = {1, 0, 0, 0}; Random::shuffle(q); return S(q); }, {{"1,0,0,0,", 1}, {"0,1,0,0,", 1}, {"0,0,1,0,", 1}, {"0,0,0,1,", 1}}); });
	mc::sample("integer(0,3): exactly (2^64-1)/3 engine words for each value, the remaining word is rejected; shuffle of 5: 60^4 engine histories, each permutation 60^4/120 times");
	return mc::finish();
}
