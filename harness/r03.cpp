// R03: geometric, binomial, maximum, minimum, minmax: range for every boundary engine word, law on complete choice trees
#include "r_real.h"
static const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
static std::string R(Real x) { char b[60]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
static std::string W(const std::vector<u64>& w) { std::string s = " with engine words"; char b[40]; for (u64 x : w) { snprintf(b, sizeof b, " %llx", x); s += b; } return s; }
template<class F> static void edges(const std::string& key, const std::string& name, F f, Integer lower, Integer last, const std::vector<u64>& words, int depth) {
	mc::current(key.c_str(), name); u64 n = mc::ipow(words.size(), depth);
	for (u64 i = 0; i < n; i++) {
		std::vector<u64> w; for (int d : mc::digits(i, words.size(), depth)) w.push_back(words[d]);
		vh::Script s(w, i); s.limit = 100000; Integer r;
		try { r = f(); } catch (std::exception& e) { mc::violation(key + ":exception", name + " throws " + e.what() + W(w)); return; }
		mc::step(); if (!(lower <= r && r <= last)) { mc::violation(key + ":range", name + " = " + mc::str(r) + W(w)); return; }
	}
	mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(name));
}
using Law = std::map<Integer, Real>;
// all tuples of quantiles while the run asks for at most `reals` of them; longer runs are abandoned (rejected attempts)
template<class F> static Law law(F f, const std::vector<Quant>& q, int reals) {
	Law c; std::vector<size_t> st; Words e; 
	std::function<void(int, Real)> rec = [&](int k, Real w) { // try with the quantiles chosen so far
		std::vector<u64> ws; for (size_t i : st) { ws.push_back(q[i].a); ws.push_back(q[i].b); } e.set(ws); mc::step();
		try { Integer r = f(); c[r] += w; return; } catch (Stop&) {}
		if (k == reals) return;
		for (size_t i = 0; i < q.size(); i++) { st.push_back(i); rec(k + 1, w * q[i].w); st.pop_back(); }
	};
	rec(0, 1); return c;
}
static void cmp(const std::string& key, const std::string& name, const Law& c, std::function<Real(Integer)> pmf, Integer lo, Integer hi, Real tol, Real minMass) {
	Real tot = 0, a = 0, b = 0; for (auto& x : c) tot += x.second; mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(name) + 1);
	if (tot < minMass && key.compare(0, 3, "min") != 0 && key != "maximum") { mc::violation(key + ":law", name + " accepts only a share of " + R(tot) + " of the first attempts"); return; }
	if (tot < minMass) { mc::notes[name] = "draws more engine words than one real: the law was not compared"; return; } // e.g. the maximum of n single draws
	for (auto& x : c) if (x.first < lo || x.first > hi) { mc::violation(key + ":range", name + " = " + mc::str(x.first)); return; }
	for (Integer v = lo; v <= hi; v++) { Real g = (c.count(v) ? c.at(v) : 0) / tot, w = pmf(v); a += g; b += w; if (std::abs(g - w) > tol || std::abs(a - b) > tol) { mc::violation(key + ":law", name + ": value " + mc::str(v) + " has probability " + R(g) + " instead of " + R(w)); return; } }
}
template<class F> static void exact(const std::string& key, const std::string& name, u64 D, F f, const std::map<Integer, u64>& want) {
	std::map<Integer, u64> c; mc::current(key.c_str(), name); u64 leaves = vh::exploreGrid(D, [&] { c[f()]++; }), tot = 0; for (auto& x : want) tot += x.second; mc::nontrivial(); mc::state(mc::hashStr(name) + 2);
	for (auto& x : c) if (!want.count(x.first)) { mc::violation(key + ":range", name + " = " + mc::str(x.first)); return; }
	for (auto& x : want) if (c[x.first] * tot != leaves * x.second) { mc::violation(key + ":law", name + ": value " + mc::str(x.first) + " has probability " + mc::str(c[x.first]) + "/" + mc::str(leaves) + " instead of " + mc::str(x.second) + "/" + mc::str(tot)); return; }
}
static Real binom(Integer n, Real p, Integer k) { return std::exp(std::lgamma((Real)n + 1) - std::lgamma((Real)k + 1) - std::lgamma((Real)(n - k) + 1) + k * std::log(p) + (n - k) * std::log1p(-p)); }
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	auto E1 = edgeWords(true), E2 = edgeWords(false); std::vector<u64> E4 = {0, 1, 2, ~0ull, ~1ull, ~0ull << 10, ~0ull << 12, 1ull << 63, (1ull << 63) + 1, ~0ull >> 1, 1ull << 62, 0x5555555555555555ull, 1ull << 32, 0xA000000000000000ull};
	if (T) for (u64 x : {3ull, 1ull << 20, 0xAAAAAAAAAAAAAAAAull, ~0ull << 1, ~0ull << 53}) E4.push_back(x);
	std::vector<Real> ps = {0, 1e-4000L, 1e-300L, 1e-30L, 1e-20L, 1e-19L, 1e-18L, 1e-10L, 1e-3L, 0.1L, 0.5L, 0.9L, 0.999L, 1 - 1e-10L, std::nextafter(1.0L, 0.0L)};
	mc::parallel(ps.size(), [&](u64 i) { Real p = ps[i]; edges("geometric", "geometric(" + R(p) + ")", [&] { return Random::geometric(p); }, 0, MX, E1, 2); });
	std::vector<std::pair<Integer, Integer>> iv = {{0, 1}, {0, 2}, {0, 1000}, {-5, 5}, {7, 8}, {MN, MN + 1}, {MN, MX}, {MN, 0}, {0, MX}, {MX - 1, MX}, {-(Integer(1) << 40), Integer(1) << 40}, {MX - 100, MX}};
	mc::parallel(ps.size() * iv.size(), [&](u64 i) {
		Real p = ps[i / iv.size()]; auto [l, u] = iv[i % iv.size()]; std::string n = "geometric(" + mc::str(l) + "," + mc::str(u) + "," + R(p) + ")";
		if (p == 0) { vh::Script s({~0ull, 1, ~0ull, 1, 5, 5}); s.limit = 1000; std::string o = vh::outcome([&, l = l, u = u] { Integer r = Random::geometric(l, u, p); return r >= l && r < u ? std::string("ok") : mc::str(r); }); mc::trace(); if (o != "ok" && o != "refused") mc::violation("geometric(lower,upper):p0", n + ": " + o); return; }
		if (p * ((Real)u - (Real)l) < 1e-3L) return; // rejection sampling may take forever
		edges("geometric(lower,upper)", n, [&, l = l, u = u] { return Random::geometric(l, u, p); }, l, u - 1, E1, 2);
	});
	// narrow ranges and tiny p: the first draws overflow every integer, a later one (engine words giving a value next to 1) is accepted
	mc::parallel(ps.size() * iv.size(), [&](u64 i) { Real p = ps[i / iv.size()]; auto [l, u] = iv[i % iv.size()]; if (p == 0 || (p < 1e-19L && u - 1 - l < 5)) return; for (u64 a : E2) for (u64 b : E2) { Words e({a, b}); mc::step(); std::string n = "geometric(" + mc::str(l) + "," + mc::str(u) + "," + R(p) + ")"; mc::current("geometric(lower,upper)", n); try { Integer r = Random::geometric(l, u, p); if (r < l || r >= u) mc::violation("geometric(lower,upper):range", n + " = " + mc::str(r) + W({a, b})); } catch (Stop&) {} } mc::trace(); });
	// draws next to 2^63 (p chosen for the engine words), and bounds placed exactly on a drawn value
	mc::parallel(E2.size(), [&](u64 i) { u64 a = E2[i]; for (u64 b : {u64(5), u64(1) << 62, ~u64(0), E2[(i * 7 + 3) % E2.size()]}) { Real u; { Words e({a, b}); try { u = Random::real(); } catch (Stop&) { continue; } } if (!(u > 0 && u < 1)) continue;
			for (Real target : {0x1p63L, 0x1p62L, 0x1p64L, 0x1p32L, 1000.0L, 7.0L, 1.0L}) { Real p = -std::expm1(std::log(u) / target); if (!(p > 0 && p < 1)) continue; for (int k = 0; k < 12; k++) p = std::nextafter(p, 0.0L);
				for (int k = 0; k < 25; k++, p = std::nextafter(p, 1.0L)) { if (!(p > 0 && p < 1)) continue; std::string n = "geometric(" + R(p) + ")"; mc::current("geometric", n); Words e({a, b}); mc::step(); Integer v; try { v = Random::geometric(p); } catch (Stop&) { continue; } if (v < 0) { mc::violation("geometric:range", n + " = " + mc::str(v) + W({a, b})); return; }
					if (k % 4) continue; for (Integer off : {Integer(0), Integer(-5), MN}) for (int d = 0; d < 2; d++) { Integer hi = v + off - d; if (hi <= off || (off > 0 && hi < 0)) continue; Words e2({a, b, a, b}); mc::step(); try { Integer r = Random::geometric(off, hi, p); if (r < off || r >= hi) { mc::violation("geometric(lower,upper):range", "geometric(" + mc::str(off) + "," + mc::str(hi) + "," + R(p) + ") = " + mc::str(r) + W({a, b})); return; } } catch (Stop&) {} } } } }
		mc::trace(); mc::nontrivial(); mc::state(mc::comb(815, i)); });
	std::vector<Integer> bn = {0, 1, 2, 5, 9, 20, 21, 100, 1000, 1000000, Integer(1) << 40, Integer(1) << 62, MX}; std::vector<Real> bp = {0, 1e-4000L, 1e-300L, 1e-30L, 1e-19L, 1e-18L, 1e-10L, 1e-3L, 0.1L, 0.3L, 0.5L, std::nextafter(0.5L, 1.0L), 0.7L, 0.999L, 1 - 1e-10L, std::nextafter(1.0L, 0.0L), 1};
	mc::parallel(bn.size() * bp.size(), [&](u64 i) { Integer n = bn[i / bp.size()]; Real p = bp[i % bp.size()]; std::string nm = "binomial(" + mc::str(n) + "," + R(p) + ")"; edges("binomial", nm, [&] { return Random::binomial(n, p); }, p == 1 ? n : 0, p == 0 ? 0 : n, E2, 2); if (n <= 20 || (T && n <= 1000000)) edges("binomial", nm + " ", [&] { return Random::binomial(n, p); }, p == 1 ? n : 0, p == 0 ? 0 : n, E4, 4);
		if (n > 1 && n < 100000 && p > 0.05L && p < 0.95L) { Integer m = n * p; edges("binomial(lower,upper)", "binomial(" + mc::str(m - 1) + "," + mc::str(m + 2) + "," + mc::str(n) + "," + R(p) + ")", [&] { return Random::binomial(m - 1, m + 2, n, p); }, m - 1, m + 1, E2, 2); edges("binomial(lower,upper)", "binomial(-5," + mc::str(m + 1) + "," + mc::str(n) + "," + R(p) + ")", [&] { return Random::binomial(-5, m + 1, n, p); }, 0, m, E2, 2); } });
	// maximum, minimum, minmax
	std::vector<Integer> ns = {1, 2, 3, 4, 5, 6, 10, 1000, Integer(1) << 40, MX};
	mc::parallel(iv.size() * ns.size(), [&](u64 i) {
		auto [l, u] = iv[i / ns.size()]; Integer n = ns[i % ns.size()]; auto& Wd = n < 3 ? E1 : E4; int d = n < 5 ? std::min<Integer>(n, 3) : 2; const auto& X = n >= 5 ? E1 : Wd; std::string a = "(" + mc::str(l) + "," + mc::str(u) + "," + mc::str(n) + ")";
		edges("maximum", "maximum" + a, [&, l = l, u = u] { return Random::maximum(l, u, n); }, l, u - 1, X, d); edges("minimum", "minimum" + a, [&, l = l, u = u] { return Random::minimum(l, u, n); }, l, u - 1, X, d);
		edges("minmax", "minmax" + a, [&, l = l, u = u] { return Random::minmax(l, u, n); }, l, u - 1, X, d); edges("minmax", "minmax-" + a, [&, l = l, u = u] { return Random::minmax(l, u, -n); }, l, u - 1, X, d);
		if (u > 0) { edges("maximum(upper)", "maximum" + a + " ", [&, u = u] { return Random::maximum(u, n); }, 0, u - 1, X, d); edges("minimum(upper)", "minimum" + a + " ", [&, u = u] { return Random::minimum(u, n); }, 0, u - 1, X, d); edges("minmax(upper)", "minmax" + a + " ", [&, u = u] { return Random::minmax(u, n); }, 0, u - 1, X, d); edges("minmax(upper)", "minmax-" + a + " ", [&, u = u] { return Random::minmax(u, -n); }, 0, u - 1, X, d); }
	});
	mc::parallel(1, [&](u64) {
		auto no = [&](const std::string& k, const std::string& n, auto f) { vh::Script s({}); s.limit = 1000; mc::step(); mc::trace(); mc::current(k.c_str(), n); if (!vh::refuses(f) || s.pos >= 1000) mc::violation(k + ":invalid", n + " was not refused"); };
		const Real NANR = std::numeric_limits<Real>::quiet_NaN();
		for (Integer n : {Integer(0), Integer(-1), MN}) { no("maximum", "maximum(0,5," + mc::str(n) + ")", [&] { Random::maximum(0, 5, n); }); no("minimum", "minimum(0,5," + mc::str(n) + ")", [&] { Random::minimum(0, 5, n); }); }
		for (auto [l, u] : std::vector<std::pair<Integer, Integer>>{{0, 0}, {5, 4}, {MX, MN}, {1, 0}}) for (Integer n : {1, 4, 5, 9}) { no("maximum", "maximum of an empty range", [&, l = l, u = u] { Random::maximum(l, u, n); }); no("minimum", "minimum of an empty range", [&, l = l, u = u] { Random::minimum(l, u, n); }); no("geometric", "geometric of an empty range", [&, l = l, u = u] { Random::geometric(l, u, 0.5L); }); no("binomial", "binomial of an empty range", [&, l = l, u = u] { Random::binomial(l, u, 10, 0.5L); }); }
		for (Real p : {-1e-9L, -1.0L, 1.5L, 2.0L, NANR}) { no("geometric", "geometric(" + R(p) + ")", [&] { Random::geometric(p); }); no("geometric", "geometric(0,5," + R(p) + ")", [&] { Random::geometric(0, 5, p); }); no("binomial", "binomial(5," + R(p) + ")", [&] { Random::binomial(5, p); }); }
		no("binomial", "binomial(-1,0.5)", [&] { Random::binomial(-1, 0.5L); });
	});
	// exact law of maximum/minimum of up to 4 draws
	mc::parallel(7 * 4, [&](u64 i) { Integer s = 1 + i / 4, n = 1 + i % 4; if (mc::ipow(2 * s, n) > 60000 && !T) return; for (Integer off : {0, -3, 1000}) { std::map<Integer, u64> mx, mn; for (Integer v = 0; v < s; v++) { mx[off + v] = mc::ipow(v + 1, n) - mc::ipow(v, n); mn[off + s - 1 - v] = mx[off + v]; } std::string a = "(" + mc::str(off) + "," + mc::str(off + s) + "," + mc::str(n) + ")"; exact("maximum", "maximum" + a, 2 * s, [&] { return Random::maximum(off, off + s, n); }, mx); exact("minimum", "minimum" + a, 2 * s, [&] { return Random::minimum(off, off + s, n); }, mn); exact("minmax", "minmax" + a, 2 * s, [&] { return Random::minmax(off, off + s, n); }, mx); exact("minmax", "minmax-" + a, 2 * s, [&] { return Random::minmax(off, off + s, -n); }, mn); } });
	std::vector<Quant> all = quantiles(9), q1 = thin(all, 4000), q2 = thin(all, T ? 1000 : 400), q3 = thin(all, 100), q4 = thin(all, T ? 48 : 30);
	mc::parallel(44, [&](u64 i) {
		auto mm = [&](Integer l, Integer s, Integer n) { auto f = [=](Integer v) { return std::pow((Real)(v + 1) / s, (Real)n) - std::pow((Real)v / s, (Real)n); }; std::string a = "(" + mc::str(l) + "," + mc::str(l + s) + "," + mc::str(n) + ")"; cmp("maximum", "maximum" + a, law([=] { return Random::maximum(l, l + s, n); }, q1, 1), [=](Integer v) { return f(v - l); }, l, l + s - 1, 0.003L, 0.99L); cmp("minimum", "minimum" + a, law([=] { return Random::minimum(l, l + s, n); }, q1, 1), [=](Integer v) { return f(l + s - 1 - v); }, l, l + s - 1, 0.003L, 0.99L); cmp("minmax", "minmax" + a, law([=] { return Random::minmax(l, l + s, n); }, q1, 1), [=](Integer v) { return f(v - l); }, l, l + s - 1, 0.003L, 0.99L); cmp("minmax", "minmax-" + a, law([=] { return Random::minmax(l, l + s, -n); }, q1, 1), [=](Integer v) { return f(l + s - 1 - v); }, l, l + s - 1, 0.003L, 0.99L); };
		if (i < 5) { std::vector<std::array<Integer, 3>> t = {{0, 10, 5}, {-7, 3, 6}, {100, 50, 10}, {0, 2, 5}, {5, 1000, 100}}; mm(t[i][0], t[i][1], t[i][2]); }
		else if (i >= 40) { std::vector<std::array<Integer, 3>> t = {{0, 10000, 5000}, {-3, 200000, 100000}, {0, 2000000, 1000000}, {7, 400, 300}}; auto [l, s, n] = t[i - 40]; mm(l, s, n); }
		else if (i < 9) { Real p = std::vector<Real>{0.5L, 0.2L, 0.9L, 0.05L}[i - 5]; cmp("geometric", "geometric(" + R(p) + ")", law([=] { return Random::geometric(p); }, q1, 1), [=](Integer v) { return p * std::pow(1 - p, (Real)v); }, 0, 5000, 0.003L, 0.99L); cmp("geometric(lower,upper)", "geometric(3,8," + R(p) + ")", law([=] { return Random::geometric(3, 8, p); }, q1, 1), [=](Integer v) { return p * std::pow(1 - p, (Real)(v - 3)) / (1 - std::pow(1 - p, 5.0L)); }, 3, 7, 0.015L, 0.1L); }
		else if (i < 21) { Integer n = 1 + (i - 9) / 4; Real p = std::vector<Real>{0.5L, 0.2L, 0.8L, 0.05L}[(i - 9) % 4]; auto& q = n == 1 ? q2 : n == 2 ? q3 : q4; cmp("binomial", "binomial(" + mc::str(n) + "," + R(p) + ")", law([=] { return Random::binomial(n, p); }, q, n + 1), [=](Integer v) { return binom(n, p, v); }, 0, n, n == 1 ? 0.005L : n == 2 ? 0.03L : 0.06L, 0.99L); }
		else if (i < 33) { auto t = std::vector<std::pair<Integer, Real>>{{22, 0.5L}, {40, 0.3L}, {100, 0.5L}, {100, 0.8L}, {1000, 0.1L}, {21, 0.52L}, {10000, 0.5L}, {1000, 0.985L}, {30, 0.6L}, {50, 0.25L}, {64, 0.75L}, {2000, 0.01L}}[i - 21]; Integer n = t.first; Real p = t.second; cmp("binomial", "binomial(" + mc::str(n) + "," + R(p) + ")", law([=] { return Random::binomial(n, p); }, q2, 2), [=](Integer v) { return binom(n, p, v); }, 0, n, 0.012L, 0.5L); }
		else if (i < 36) { auto t = std::vector<std::array<Real, 4>>{{8, 14, 22, 0.5L}, {-5, 10, 40, 0.3L}, {80, 1000, 100, 0.8L}}[i - 33]; Integer l = t[0], u = t[1], n = t[2]; Real p = t[3], tot = 0; for (Integer v = std::max<Integer>(l, 0); v < u && v <= n; v++) tot += binom(n, p, v); cmp("binomial(lower,upper)", "binomial(" + mc::str(l) + "," + mc::str(u) + "," + mc::str(n) + "," + R(p) + ")", law([=] { return Random::binomial(l, u, n, p); }, q2, 2), [=](Integer v) { return v < 0 || v > n ? 0 : binom(n, p, v) / tot; }, l, u - 1, 0.02L, 0.1L); }
	});
	mc::sample("geometric(0,1000,1e-19) with engine words giving log(u)/log(1-p) beyond 2^63: must be redrawn, never returned below lower");
	return mc::finish();
}
