// R02: reals stay in [lower, upper) for every boundary engine word; their law on the quantile grid
#include "r_real.h"
static std::string R(Real x) { char b[60]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
static const Real INF = std::numeric_limits<Real>::infinity(), NANR = std::numeric_limits<Real>::quiet_NaN();
static std::string W(const std::vector<u64>& w) { std::string s = " with engine words"; char b[40]; for (u64 x : w) { snprintf(b, sizeof b, " %llx", x); s += b; } return s; }
// f under all tuples of boundary words; later words come from fallback streams
template<class F> static void edges(const std::string& key, const std::string& name, F f, Real lower, Real upper, const std::vector<u64>& words, int depth) {
	mc::current(key.c_str(), name); u64 n = mc::ipow(words.size(), depth);
	for (u64 i = 0; i < n; i++) {
		std::vector<u64> w; for (int d : mc::digits(i, words.size(), depth)) w.push_back(words[d]);
		vh::Script s(w, i); s.limit = 200000; Real r;
		try { r = f(); } catch (std::exception& e) { mc::violation(key + ":exception", name + " throws " + e.what() + W(w)); return; }
		mc::step(); if (!(lower <= r && r < upper)) { mc::violation(key + ":range", name + " = " + R(r) + W(w)); return; }
	}
	mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(name));
}
struct Pt { Real v, w; };
static void ks(const std::string& key, const std::string& name, std::vector<Pt> p, std::function<Real(Real)> cdf, Real tol) {
	std::sort(p.begin(), p.end(), [](const Pt& a, const Pt& b) { return a.v < b.v; }); Real tot = 0; for (auto& x : p) tot += x.w;
	if (!(tot > 0.05)) { mc::violation(key + ":law", name + " accepts almost nothing at the first attempt"); return; }
	Real acc = 0, worst = 0, at = 0; for (size_t i = 0; i < p.size();) { Real lo = acc; size_t j = i; while (j < p.size() && p[j].v == p[i].v) acc += p[j++].w; Real c = cdf(p[i].v), d = std::max(std::abs(c - lo / tot), std::abs(c - acc / tot)); if (j - i == 1 || 1) if (std::min(std::abs(c - lo / tot), std::abs(c - acc / tot)) > worst) worst = std::min(std::abs(c - lo / tot), std::abs(c - acc / tot)), at = p[i].v; (void)d; i = j; }
	mc::trace(); mc::nontrivial(); mc::state(mc::hashStr(name) + 1);
	if (worst > tol) mc::violation(key + ":law", name + ": the probability of a value below " + R(at) + " is off by " + R(worst));
}
template<class F> static std::vector<Pt> law(F f, const std::vector<Quant>& q, int reals) {
	std::vector<Pt> p; Words e;
	if (reals == 1) for (auto& a : q) { e.set({a.a, a.b}); mc::step(); try { Real v = f(); p.push_back({v, a.w}); } catch (Stop&) {} }
	else for (auto& a : q) for (auto& b : q) { e.set({a.a, a.b, b.a, b.b}); mc::step(); try { Real v = f(); p.push_back({v, a.w * b.w}); } catch (Stop&) {} }
	return p;
}
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	auto E1 = edgeWords(true), E2 = edgeWords(false); std::vector<u64> E4 = {0, 1, 2, ~0ull, ~1ull, ~0ull << 10, ~0ull << 11, ~0ull << 12, 1ull << 63, (1ull << 63) + 1, ~0ull >> 1, 1ull << 62, 0x5555555555555555ull, 1ull << 32}; if (T) for (u64 x : {3ull, 1ull << 20, 0xAAAAAAAAAAAAAAAAull, ~0ull << 1, ~0ull << 9, ~0ull << 53, 1ull << 52}) E4.push_back(x);
	const Real MX = std::numeric_limits<Real>::max(), DM = std::numeric_limits<Real>::denorm_min(), MI = std::numeric_limits<Real>::min();
	auto nx = [](Real a, Real b) { return std::nextafter(a, b); };
	mc::parallel(1, [&](u64) { edges("real", "real()", [] { return Random::real(); }, 0, 1, E1, 2); edges("real", "real() ", [] { return Random::real(); }, 0, 1, E4, 4); Real lo = 1, hi = 0; for (u64 a : E1) for (u64 b : E1) { vh::Script s({a, b}); Real r = Random::real(); lo = std::min(lo, r); hi = std::max(hi, r); } if (lo > 1e-12L || hi < 1 - 1e-12L) mc::violation("real:reach", "real() only reaches [" + R(lo) + "," + R(hi) + "]"); });
	std::vector<Real> ups = {1, 2, 0.1L, 3, 1e-9L, 1e18L, MX, MI, DM, DM * 3, 1e-300L, nx(1, 2), nx(1, 0), 1e300L};
	mc::parallel(ups.size(), [&](u64 i) { Real u = ups[i]; edges("real(upper)", "real(" + R(u) + ")", [&] { return Random::real(u); }, 0, u, E1, 2); });
	std::vector<std::pair<Real, Real>> iv = {{0, 1}, {-1, 1}, {-1, 0}, {1, 2}, {-2, -1}, {1e18L, 1e18L + 1}, {-MX, MX}, {0, MX}, {-MX, -1}, {0, DM}, {-DM, DM}, {-DM, 0}, {1, nx(1, 2)}, {nx(1, 0), 1}, {-1, nx(-1, 0)}, {1e9L, 1e9L + 1e-9L}, {-1e-9L, 1e9L}, {0.1L, 0.3L}, {MI, 2 * MI}, {-5, 1e30L}, {3, 3 + 1e-15L}};
	mc::parallel(iv.size(), [&](u64 i) { auto [l, u] = iv[i]; edges("real(lower,upper)", "real(" + R(l) + "," + R(u) + ")", [&, l = l, u = u] { return Random::real(l, u); }, l, u, E1, 2); });
	struct N { Real l, u, m, s; }; std::vector<N> ns = {{-1, 1, 0, 1}, {0, INF, 0, 1}, {-INF, 0, 0, 1}, {-INF, INF, 5, 2}, {-1, 1, 0, 0}, {3, 4, 3, 0}, {0, 10, 5, 0.01L}, {-100, 100, 0, 30}, {1e9L, 1e9L + 1, 1e9L, 1}, {2, 2.5L, 0, 1}, {-0.01L, 0.01L, 0, 1}, {-1e-5L, 1e-5L, 0, 1e-6L}};
	mc::parallel(ns.size(), [&](u64 i) { auto n = ns[i]; edges("normal(lower,upper)", "normal(" + R(n.l) + "," + R(n.u) + "," + R(n.m) + "," + R(n.s) + ")", [&] { return Random::normal(n.l, n.u, n.m, n.s); }, n.l, n.u, E4, 4); });
	std::vector<std::pair<Real, Real>> nf = {{0, 1}, {5, 0}, {-3, 100}, {0, 1e-9L}, {1e18L, 1}};
	mc::parallel(nf.size(), [&](u64 i) { auto [m, s] = nf[i]; edges("normal", "normal(" + R(m) + "," + R(s) + ")", [&, m = m, s = s] { Real r = Random::normal(m, s); if (s == 0 && r != m) return NANR; return r; }, -MX, INF, E4, 4); });
	std::vector<Real> ls = {1, 0.5L, 2, 1e-9L, 1e9L, 1e-300L, 1e300L};
	mc::parallel(ls.size(), [&](u64 i) { Real l = ls[i]; edges("exponential", "exponential(" + R(l) + ")", [&] { return Random::exponential(l); }, 0, INF, E1, 2); });
	struct X { Real l, u, r; }; std::vector<X> xs = {{0, 1, 1}, {0, INF, 1}, {-5, 3, 0.1L}, {10, 10.5L, 2}, {0, 0.001L, 1}, {1e6L, 1e6L + 1, 3}, {-1, 0, 1}, {0, 1e-3L, 1e3L}, {-1e9L, 1e9L, 1e-9L}, {5, nx(5, 6), 1e19L}};
	mc::parallel(xs.size(), [&](u64 i) { auto x = xs[i]; edges("exponential(lower,upper)", "exponential(" + R(x.l) + "," + R(x.u) + "," + R(x.r) + ")", [&] { return Random::exponential(x.l, x.u, x.r); }, x.l, x.u, E2, 2); if (x.l == 0) edges("exponential(lower,upper)", "exponential(" + R(x.l) + "," + R(x.u) + "," + R(x.r) + ") ", [&] { return Random::exponential(x.l, x.u, x.r); }, x.l, x.u, E4, 4); });
	// bounds placed exactly on a value the function draws: the lower one is allowed, the upper one never is
	{
		struct F { const char* k; int words; std::function<Real(Real, Real)> f; Real lo; };
		std::vector<F> fs; for (auto [m, d] : std::vector<std::pair<Real, Real>>{{0, 1}, {5, 2}, {-1e9L, 1}, {3, 0}, {1, 1e-19L}, {0, 1e-30L}}) fs.push_back({"normal(lower,upper)", 4, [m = m, d = d](Real l, Real u) { return Random::normal(l, u, m, d); }, -INF});
		for (auto [l0, r] : std::vector<std::pair<Real, Real>>{{0, 1}, {-5, 0.1L}, {1e6L, 3}, {0, 1e300L}, {1, 1e19L}}) fs.push_back({"exponential(lower,upper)", 2, [r = r](Real l, Real u) { return Random::exponential(l, u, r); }, l0});
		mc::parallel(fs.size(), [&](u64 i) {
			auto& f = fs[i]; std::vector<std::vector<u64>> all; if (f.words == 2) { for (u64 a : E2) for (u64 b : E2) all.push_back({a, b}); } else { auto A = symWords(4), B = symWords(3); for (u64 a : A) for (u64 b : A) all.push_back({a, B[a >> 61], b, B[(a ^ b) >> 61]}); for (u64 x = 0; x < mc::ipow(E4.size(), 4); x++) { std::vector<u64> w; for (int d : mc::digits(x, E4.size(), 4)) w.push_back(E4[d]); all.push_back(w); } }
			for (auto& w : all) { std::string n = std::string(f.k) + " #" + mc::str(i); mc::current(f.k, n); Words e(w); Real v; mc::step(); try { v = f.f(f.lo, INF); } catch (Stop&) { continue; } catch (std::exception&) { continue; }
				if (!std::isfinite(v)) continue;
				auto two = w; two.insert(two.end(), w.begin(), w.end());
				if (f.lo < v) { Words e2(two); mc::step(); try { Real r = f.f(f.lo, v); if (!(f.lo <= r && r < v)) { mc::violation(std::string(f.k) + ":range", n + ": with upper bound " + R(v) + " the result is " + R(r) + W(w)); return; } } catch (Stop&) {} catch (std::exception&) {} }
				if (f.words == 4) { Words e3(two); mc::step(); try { Real r = f.f(v, INF); if (!(r >= v)) { mc::violation(std::string(f.k) + ":range", n + ": with lower bound " + R(v) + " the result is " + R(r) + W(w)); return; } } catch (Stop&) {} catch (std::exception&) {} }
			}
			mc::trace(); mc::nontrivial(); mc::state(mc::comb(4711, i));
		});
	}
	// invalid parameters
	mc::parallel(1, [&](u64) {
		auto no = [&](const std::string& k, const std::string& n, auto f) { vh::Script s({}); s.limit = 1000; mc::step(); mc::trace(); mc::current(k.c_str(), n); if (!vh::refuses(f) || s.pos >= 1000) mc::violation(k, n + " was not refused"); };
		for (Real u : {0.0L, -0.0L, -1.0L, INF, -INF, NANR}) no("real(upper):invalid", "real(" + R(u) + ")", [&] { Random::real(u); });
		for (Real a : {0.0L, 1.0L, -1.0L, INF, -INF, NANR, MX}) for (Real b : {0.0L, 1.0L, -1.0L, INF, -INF, NANR, MX}) { bool fin = std::isfinite(a) && std::isfinite(b); std::string n = R(a) + "," + R(b);
			if (!fin || !(a < b)) no("real(lower,upper):invalid", "real(" + n + ")", [&] { Random::real(a, b); });
			if (!(a < b)) no("normal:invalid", "normal(" + n + ",0,1)", [&] { Random::normal(a, b, 0, 1); });
			if (!(a < b) || !std::isfinite(a)) no("exponential:invalid", "exponential(" + n + ",1)", [&] { Random::exponential(a, b, 1); }); }
		for (Real s : {-1.0L, -DM, -INF, NANR}) { no("normal:invalid", "normal(0," + R(s) + ")", [&] { Random::normal(0, s); }); no("normal:invalid", "normal(-1,1,0," + R(s) + ")", [&] { Random::normal(-1, 1, 0, s); }); }
		for (Real l : {0.0L, -0.0L, -1.0L, -INF, NANR}) { no("exponential:invalid", "exponential(" + R(l) + ")", [&] { Random::exponential(l); }); no("exponential:invalid", "exponential(0,1," + R(l) + ")", [&] { Random::exponential(0, 1, l); }); }
	});
	// law: real() itself on words whose leading and trailing bits run through all patterns
	mc::parallel(1, [&](u64) { Words e; std::vector<Pt> p; auto A = symWords(T ? 11 : 10); for (u64 a : A) for (u64 b : A) { e.set({a, b}); mc::step(); try { Real v = Random::real(); p.push_back({v, 1 / ((Real)A.size() * A.size())}); } catch (Stop&) {} } ks("real", "real()", p, [](Real x) { return x; }, 0.004L); });
	std::vector<Quant> q1, q2; { auto all = quantiles(9); q1 = thin(all, 4000); q2 = thin(all, T ? 1000 : 400); }
	auto phi = [](Real x) { return std::erfc(-x / std::sqrt(2.0L)) / 2; };
	mc::parallel(12, [&](u64 i) {
		if (i == 0) ks("real(upper)", "real(7)", law([] { return Random::real(7); }, q1, 1), [](Real x) { return x / 7; }, 0.002L);
		if (i == 1) ks("real(lower,upper)", "real(-3,5)", law([] { return Random::real(-3, 5); }, q1, 1), [](Real x) { return (x + 3) / 8; }, 0.002L);
		if (i == 2) ks("exponential", "exponential(1)", law([] { return Random::exponential(1); }, q1, 1), [](Real x) { return -std::expm1(-x); }, 0.002L);
		if (i == 3) ks("exponential", "exponential(0.2)", law([] { return Random::exponential(0.2L); }, q1, 1), [](Real x) { return -std::expm1(-x / 5); }, 0.002L);
		if (i == 4) ks("exponential(lower,upper)", "exponential(2,3,4)", law([] { return Random::exponential(2, 3, 4); }, q1, 1), [](Real x) { return std::expm1(-(x - 2) * 4) / std::expm1(-4.0L); }, 0.003L);
		if (i == 5) ks("exponential(lower,upper)", "exponential(-1,inf,0.5)", law([] { return Random::exponential(-1, INF, 0.5L); }, q1, 1), [](Real x) { return -std::expm1(-(x + 1) / 2); }, 0.003L);
		if (i == 6) ks("normal", "normal(0,1)", law([] { return Random::normal(0, 1); }, q2, 2), phi, 0.006L);
		if (i == 7) ks("normal", "normal(10,4)", law([] { return Random::normal(10, 4); }, q2, 2), [&](Real x) { return phi((x - 10) / 4); }, 0.006L);
		if (i == 8) ks("normal", "normal(-1,0.01)", law([] { return Random::normal(-1, 0.01L); }, q2, 2), [&](Real x) { return phi((x + 1) / 0.01L); }, 0.006L);
		auto trunc = [&](Real l, Real u, Real m, Real s) { ks("normal(lower,upper)", "normal(" + R(l) + "," + R(u) + "," + R(m) + "," + R(s) + ")", law([&] { return Random::normal(l, u, m, s); }, q2, 2), [&](Real x) { return (phi((x - m) / s) - phi((l - m) / s)) / (phi((u - m) / s) - phi((l - m) / s)); }, 0.006L); };
		if (i == 9) trunc(-1, 2, 0, 1); if (i == 10) trunc(0, 8, 3, 5); if (i == 11) trunc(-INF, 0.05L, 0, 0.1L);
	});
	mc::sample("real() under all pairs of boundary engine words (incl. ffffffffffffffff,1): every result < 1");
	return mc::finish();
}
