// R08: Random::convex and Random::nonCollinearPoints: promised geometry for every accepted parameter
#include "r_law.h"
using P = std::pair<Integer, Integer>; using Poly = std::vector<P>; using L = __int128;
static L cr(P a, P b, P c) { return (L)(b.first - a.first) * (c.second - a.second) - (L)(b.second - a.second) * (c.first - a.first); }
static int sg(L x) { return (x > 0) - (x < 0); }
static std::string SP(const Poly& p) { std::string r = "{"; for (size_t i = 0; i < p.size() && i < 20; i++) r += "(" + std::to_string(p[i].first) + "," + std::to_string(p[i].second) + ")"; return r + "}"; }
// once counter-clockwise around the boundary of a two-dimensional hull, no vertex repeated
static std::string convexBad(const Poly& p, Integer n, Integer dim) {
	if ((Integer)p.size() != n) return "has " + mc::str(p.size()) + " points";
	Integer x0 = MX, x1 = MN, y0 = MX, y1 = MN; for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
	if (x0 <= -dim || y0 <= -dim || x1 >= dim || y1 >= dim) return "leaves (-dim,dim)^2";
	if (x1 - x0 != 2 * dim - 2 || y1 - y0 != 2 * dim - 2) return "does not fill width and height";
	int m = p.size(), turns = 0; bool area = false;
	auto half = [](P d) { return d.second > 0 || (d.second == 0 && d.first > 0) ? 0 : 1; };
	for (int i = 0; i < m; i++) { P a = p[i], b = p[(i + 1) % m], c = p[(i + 2) % m]; P d{b.first - a.first, b.second - a.second}, e{c.first - b.first, c.second - b.second}; if (d == P{0, 0}) return "repeats a vertex"; L s = cr(a, b, c); if (s < 0) return "is not convex"; if (s == 0 && (L)d.first * e.first + (L)d.second * e.second < 0) return "is degenerate"; area = area || s > 0; if (half(d) == 1 && half(e) == 0) turns++; }
	if (!area) return "is degenerate"; if (turns != 1) return "winds more than once"; return "";
}
static std::string generalBad(const Poly& p, Integer n, Integer dim) {
	if ((Integer)p.size() != n) return "has " + mc::str(p.size()) + " points";
	for (auto& q : p) if (q.first <= -dim || q.second <= -dim || q.first >= dim || q.second >= dim) return "leaves (-dim,dim)^2";
	size_t m = p.size();
	if (m <= 60) { for (size_t i = 0; i < m; i++) for (size_t j = 0; j < i; j++) { if (p[i] == p[j]) return "repeats a point"; for (size_t k = 0; k < j; k++) if (cr(p[i], p[j], p[k]) == 0) return "has three points on a line"; } }
	else { for (size_t i = 0; i < m; i += m > 2000 ? m / 20 : 1) { std::vector<P> d; for (size_t j = 0; j < m; j++) if (j != i) { P v{p[j].first - p[i].first, p[j].second - p[i].second}; if (v == P{0, 0}) return "repeats a point"; if (v.first < 0 || (v.first == 0 && v.second < 0)) v = {-v.first, -v.second}; d.push_back(v); } std::sort(d.begin(), d.end(), [](P a, P b) { return (L)a.first * b.second - (L)a.second * b.first > 0; }); for (size_t k = 1; k < d.size(); k++) if ((L)d[k - 1].first * d[k].second == (L)d[k - 1].second * d[k].first) return "has three points on a line"; } }
	return "";
}
// every run that deviates from a base stream in at most `dev` of the first `width` draws
static const u64 ALT[] = {0, ~0ull, 1ull << 63, (1ull << 63) - 1, 0x2AAAAAAAAAAAAAABull, 0xD555555555555555ull, 0x1999999999999999ull, 0x7000000000000001ull};
struct DrawLimit {};
template<class F> static void deviations(u64 base, int width, int dev, int alts, F f, u64 limit = 400000) {
	std::map<int, u64> ch; u64 pos = 0; std::function<u64()> src = [&]() -> u64 { u64 k = pos++; if (k > limit) throw DrawLimit{}; auto it = ch.find(k); return it != ch.end() ? it->second : mc::mix(base * 1000003 + k); };
	std::function<void(int, int)> rec = [&](int from, int left) { pos = 0; env::source = &src; mc::step(); mc::trace(); f(); env::source = nullptr; if (!left) return; for (int p = from; p < width; p++) for (int a = 0; a < alts; a++) { ch[p] = ALT[a]; rec(p + 1, left - 1); ch.erase(p); } };
	rec(0, dev);
}
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	struct J { Integer n, dim; u64 base; }; std::vector<J> js;
	// a uniformly random cut of the border into n pieces rarely is usable once n exceeds about 4*dim: such runs may be cut off (they are inconclusive, see the known findings)
	auto dense = [](Integer n, Integer dim) { return n > 4 * dim - 4; };
	auto once = [&](Integer n, Integer dim) { std::string nm = "convex(" + mc::str(n) + "," + mc::str(dim) + ")"; try { auto p = Random::convex(n, dim); auto b = convexBad(p, n, dim); if (!b.empty()) mc::violation("convex:" + b.substr(0, 12), nm + " = " + SP(p) + " " + b); } catch (DrawLimit&) { if (!dense(n, dim)) mc::violation("convex:never-ends(" + mc::str(n) + "," + mc::str(dim) + ")", nm + " still runs after 400000 draws"); } };
	for (Integer dim = 2; dim <= (T ? 9 : 6); dim++) for (Integer n = 3; n <= 8 * dim - 8; n++) for (u64 b = 0; b < (T ? 4u : 1u); b++) js.push_back({n, dim, b});
	mc::parallel(js.size(), [&](u64 i) { auto j = js[js.size() - 1 - i]; mc::current("convex", "convex(" + mc::str(j.n) + "," + mc::str(j.dim) + ")"); mc::nontrivial(); mc::state(i); bool small = j.n <= 6; deviations(j.base, small ? 18 : 14, small ? 2 : 1, 8, [&] { once(j.n, j.dim); }, dense(j.n, j.dim) ? 60000 : 400000); });
	// the smallest polygons: deeper deviations
	std::vector<J> sm; for (Integer n = 3; n <= 5; n++) for (Integer dim = 2; dim <= 4; dim++) for (u64 b = 0; b < (T ? 8u : 1u); b++) sm.push_back({n, dim, 100 + b});
	mc::parallel(sm.size(), [&](u64 i) { auto j = sm[i]; mc::current("convex", "convex(" + mc::str(j.n) + "," + mc::str(j.dim) + ")"); mc::state(mc::comb(i, 3)); deviations(j.base, 14, 3, 6, [&] { once(j.n, j.dim); }); });
	std::vector<std::pair<Integer, Integer>> cb = {{3, 0x3FFFFFFF}, {4, 0x3FFFFFFF}, {100, 0x3FFFFFFF}, {1000, 1000000}, {36, 10}, {3, 1000}, {500, 200}, {7, 123456}};
	mc::parallel(cb.size() * 4, [&](u64 i) { auto [n, dim] = cb[i / 4]; mc::current("convex", "convex(" + mc::str(n) + "," + mc::str(dim) + ")"); mc::state(mc::comb(i, 4)); deviations(i, 12, n > 100 ? 1 : 2, T ? 8 : 3, [&, n = n, dim = dim] { once(n, dim); }); });
	std::vector<std::pair<Integer, Integer>> full = {{72, 10}, {392, 50}};
	mc::parallel(full.size(), [&](u64 i) { auto [n, dim] = full[i]; mc::current("convex", "dense"); u64 pos = 0; std::function<u64()> src = [&]() -> u64 { if (pos++ > (T ? 200000000ull : 20000000ull)) throw DrawLimit{}; return mc::mix(pos * 31 + i); }; env::source = &src; mc::step(); std::string nm = "convex(" + mc::str(n) + "," + mc::str(dim) + ")";
		try { auto p = Random::convex(n, dim); env::source = nullptr; auto b = convexBad(p, n, dim); if (!b.empty()) mc::violation("convex:" + b.substr(0, 12), nm + " " + b); } catch (DrawLimit&) { env::source = nullptr; mc::violation("convex:never-ends(" + mc::str(n) + "," + mc::str(dim) + ")", nm + ", allowed by n <= 8*dim-8, still runs after 2*10^7 draws"); } });
	// points in general position
	std::vector<J> gs; for (Integer dim = 1; dim <= (T ? 24 : 14); dim++) for (Integer n = 0; n < dim; n++) for (u64 b = 0; b < (T ? 6u : 3u); b++) gs.push_back({n, dim, b + 7});
	mc::parallel(gs.size(), [&](u64 i) { auto j = gs[i]; if (j.dim == 1) return; std::string nm = "nonCollinearPoints(" + mc::str(j.n) + "," + mc::str(j.dim) + ")"; mc::current("nonCollinearPoints", nm); mc::nontrivial(); mc::state(mc::comb(i, 5));
		deviations(j.base, 14, j.dim <= 5 ? (T ? 3 : 2) : (T ? 2 : 1), 8, [&] { Poly p; try { p = Random::nonCollinearPoints(j.n, j.dim); } catch (DrawLimit&) { mc::violation("nonCollinearPoints:never ends", nm + " still runs after 400000 draws"); return; } catch (std::exception& e) { mc::violation("nonCollinearPoints:refused", nm + " throws " + e.what()); return; } auto b = generalBad(p, j.n, j.dim); if (!b.empty()) mc::violation("nonCollinearPoints:" + b.substr(0, 12), nm + " = " + SP(p) + " " + b); }); });
	std::vector<std::pair<Integer, Integer>> gb = {{3, 0x1FFFFFFF}, {20, 0x1FFFFFFF}, {40, 1000}, {99, 100}, {300, 301}, {50, 1000000007 / 2}, {1, 2}, {0, 5}, {60, 61}, {128, 129}};
	std::vector<std::pair<Integer, Integer>> gl = {{49999, 50000}, {9999, 10000}, {30000, 100000}, {65536, 65537}, {60000, 3000000}};
	mc::parallel(gl.size() * 2, [&](u64 i) { auto [n, dim] = gl[i / 2]; std::string nm = "nonCollinearPoints(" + mc::str(n) + "," + mc::str(dim) + ")"; mc::current("nonCollinearPoints", nm); mc::state(mc::comb(i, 8)); deviations(i, 0, 0, 0, [&, n = n, dim = dim] { auto p = Random::nonCollinearPoints(n, dim); auto b = generalBad(p, n, dim); if (!b.empty()) mc::violation("nonCollinearPoints:" + b.substr(0, 12), nm + " " + b); }); });
	mc::parallel(gb.size() * 4, [&](u64 i) { auto [n, dim] = gb[i / 4]; std::string nm = "nonCollinearPoints(" + mc::str(n) + "," + mc::str(dim) + ")"; mc::current("nonCollinearPoints", nm); mc::state(mc::comb(i, 6)); deviations(i, 10, n > 60 ? 1 : 2, 8, [&, n = n, dim = dim] { Poly p; try { p = Random::nonCollinearPoints(n, dim); } catch (DrawLimit&) { mc::violation("nonCollinearPoints:never ends", nm + " still runs after 400000 draws"); return; } catch (std::exception& e) { mc::violation("nonCollinearPoints:refused", nm + " throws " + e.what()); return; } auto b = generalBad(p, n, dim); if (!b.empty()) mc::violation("nonCollinearPoints:" + b.substr(0, 12), nm + " " + b); }); });
	mc::parallel(1, [&](u64) {
		for (Integer n = -3; n <= 20; n++) for (Integer dim = -2; dim <= 3; dim++) { if (dim <= 0 || n < 3 || n > 8 * dim - 8) refused("convex", "convex(" + mc::str(n) + "," + mc::str(dim) + ")", [&] { Random::convex(n, dim); }); if (n < 0 || dim <= n) refused("nonCollinearPoints", "nonCollinearPoints(" + mc::str(n) + "," + mc::str(dim) + ")", [&] { Random::nonCollinearPoints(n, dim); }); }
		refused("convex", "convex(5,2^30)", [] { Random::convex(5, 0x40000000); }); refused("nonCollinearPoints", "nonCollinearPoints(5,2^29)", [] { Random::nonCollinearPoints(5, 0x20000000); });
	});
	mc::sample("convex(3,2): no engine history within 3 deviations gives the degenerate triangle (-2,-2)(1,1)(1,1)");
	return mc::finish();
}
