// M03: polygon predicates vs. definition, on all vertex sequences of small lattices (and stretched to the coordinate limit)
#include "vh.h"
using P = std::pair<Integer, Integer>; using Poly = std::vector<P>; using L = __int128;
static L cr(P a, P b, P c) { return (L)(b.first - a.first) * (c.second - a.second) - (L)(b.second - a.second) * (c.first - a.first); }
static int sg(L x) { return (x > 0) - (x < 0); }
static bool onSeg(P a, P b, P q) { return cr(a, b, q) == 0 && std::min(a.first, b.first) <= q.first && q.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= q.second && q.second <= std::max(a.second, b.second); }
static bool meet(P a, P b, P c, P d) {
	if (onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)) return true;
	return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0;
}
// simple: at least 3 vertices, consecutive edges share exactly their common end point, other edges share no point
static bool simple(const Poly& p) {
	int n = p.size(); if (n < 3) return false;
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (p[i] == p[j]) return false;
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
		P a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
		if (j == i + 1) { if (onSeg(a, b, d) || onSeg(c, d, a)) return false; }
		else if (i == (j + 1) % n) { if (onSeg(a, b, c) || onSeg(c, d, b)) return false; }
		else if (meet(a, b, c, d)) return false;
	}
	return true;
}
static L area(const Poly& p) { L r = 0; for (size_t i = 0; i < p.size(); i++) { P a = p[i], b = p[(i + 1) % p.size()]; r += (L)a.first * b.second - (L)a.second * b.first; } return r; }
// convex: the vertices run once counter-clockwise around the boundary of their (two-dimensional) hull
static bool convex(const Poly& p) {
	int n = p.size(); if (n < 3) return false; bool any = false;
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (p[i] == p[j]) return false;
	for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { int s = sg(cr(p[i], p[(i + 1) % n], p[k])); if (s < 0) return false; any = any || s > 0; }
	return any;
}
static bool strictly(const Poly& p) { if (!convex(p)) return false; int n = p.size(); for (int i = 0; i < n; i++) if (cr(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0) return false; return true; }
static std::string S(const Poly& p) { std::string r = "{"; for (auto& x : p) r += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")"; return r + "}"; }
static void check(const Poly& p, bool full) {
	mc::current("polygon", S(p)); mc::trace(); mc::step(full ? 8 : 4);
	bool c = convex(p), st = strictly(p), si = simple(p); if (si) mc::nontrivial();
	if (isConvex(p) != c) mc::violation(c ? "isConvex:rejects" : "isConvex:accepts", "isConvex(" + S(p) + ") = " + mc::str(!c));
	if (isStrictlyConvex(p) != st) mc::violation(st ? "isStrictlyConvex:rejects" : "isStrictlyConvex:accepts", "isStrictlyConvex(" + S(p) + ") = " + mc::str(!st));
	if (isSimple(p) != si) mc::violation(si ? "isSimple:rejects" : "isSimple:accepts", "isSimple(" + S(p) + ") = " + mc::str(!si));
	if (isCCW(p) != (area(p) > 0)) mc::violation("isCCW:value", "isCCW(" + S(p) + ") wrong");
	if (full) {
		if (isConvex(p.begin(), p.end()) != c || isStrictlyConvex(p.begin(), p.end()) != st) mc::violation("isConvex:iterators", "iterator form differs for " + S(p));
		if (isSimple(p.begin(), p.end()) != si) mc::violation("isSimple:iterators", "iterator form differs for " + S(p));
		if (isCCW(p.begin(), p.end()) != (area(p) > 0)) mc::violation("isCCW:iterators", "iterator form differs for " + S(p));
	}
}
static Poly of(const std::vector<int>& d, int w, Integer sx, Integer sy, Integer ox, Integer oy) { Poly p; for (int x : d) p.push_back({(x % w) * sx + ox, (x / w) * sy + oy}); return p; }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const Integer B = 0x3FFFFFFF;
	struct Grid { int w, h, len; };
	std::vector<Grid> gr = mc::thorough ? std::vector<Grid>{{3, 3, 9}, {4, 3, 7}, {4, 4, 6}, {5, 2, 8}, {2, 2, 8}, {5, 5, 5}, {3, 2, 8}} : std::vector<Grid>{{3, 3, 8}, {4, 3, 6}, {4, 4, 5}, {5, 2, 6}, {2, 2, 8}, {5, 5, 4}, {3, 2, 8}};
	for (auto g : gr) {
		int n = g.w * g.h;
		for (int len = 0; len <= g.len; len++) { // repeated vertices allowed up to length 5, distinct ones beyond
			u64 head = mc::ipow(n, std::min(len, 2)); int rest = len - std::min(len, 2);
			mc::parallel(head, [&, len, rest, n](u64 i) {
				auto d = mc::digits(i, n, std::min(len, 2)); d.resize(len);
				std::function<void(int)> rec = [&](int k) {
					if (k == len) { check(of(d, g.w, 1, 1, 0, 0), len <= 4); if (len <= 4 || (g.w == 3 && len == 5)) { check(of(d, g.w, B / (g.w - 1), 2 * B / (g.h - 1), 0, -B), false); check(of(d, g.w, -1, 1, 1, -1), false); check(of(d, g.w, 2 * (B / (g.w - 1)), -1, -B, 5), false); } return; }
					for (int v = 0; v < n; v++) { if (len > 5 && std::find(d.begin(), d.begin() + k, v) != d.begin() + k) continue; d[k] = v; rec(k + 1); }
				};
				if (len > 5 && len >= 2 && d[0] == d[1]) return;
				rec(std::min(len, 2)); mc::state(mc::comb(mc::comb(g.w * 100 + g.h, len), i));
			});
		}
	}
	// all cyclic orders of 7 (8) points of a convex position set and of points on three lines
	std::vector<std::vector<P>> sets = {{{0, 0}, {2, 0}, {3, 1}, {3, 3}, {2, 4}, {0, 4}, {-1, 2}, {-1, 1}}, {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}, {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 3}, {1, 2}, {3, 0}, {2, 1}}, {{0, 0}, {4, 0}, {2, 1}, {2, 3}, {1, 2}, {3, 2}, {0, 4}, {4, 4}}};
	int N = mc::thorough ? 8 : 7;
	mc::parallel(sets.size() * (N - 1), [&](u64 i) {
		auto& s = sets[i / (N - 1)]; std::vector<int> o; int first = 1 + i % (N - 1); for (int k = 1; k < N; k++) if (k != first) o.push_back(k);
		do { Poly p = {s[0], s[first]}; for (int k : o) p.push_back(s[k]); check(p, false); } while (std::next_permutation(o.begin(), o.end())); mc::state(mc::comb(555, i));
	});
	// answers do not depend on the starting vertex (on every cyclic shift of every simple polygon of a 3x3 grid)
	mc::parallel(81, [&](u64 i) { for (u64 r = 0; r < mc::ipow(9, 3); r++) { auto d = mc::digits(i, 9, 2), e = mc::digits(r, 9, 3); d.insert(d.end(), e.begin(), e.end()); Poly p = of(d, 3, 1, 1, 0, 0), q = p; bool c = isConvex(p), s = isSimple(p), o = isCCW(p), sc = isStrictlyConvex(p); for (int k = 1; k < 5; k++) { std::rotate(q.begin(), q.begin() + 1, q.end()); mc::step(4); if (isConvex(q) != c || isStrictlyConvex(q) != sc) mc::violation("isConvex:start", "depends on the start vertex: " + S(q)); if (isSimple(q) != s) mc::violation("isSimple:start", "depends on the start vertex: " + S(q)); if (isCCW(q) != o) mc::violation("isCCW:start", "depends on the start vertex: " + S(q)); } mc::trace(); } });
	// large polygons: many edges under the sweep line at once, vertical runs, long chains; each also damaged at every vertex
	struct Big { int kind, n, tr; }; std::vector<Big> bs; for (int n : {200, 80, 33, 12}) for (int k = 0; k < 9; k++) for (int t = 0; t < 8; t++) if (n < 100 || t < 2 || mc::thorough) bs.push_back({k, n, t});
	auto build = [](int k, int n) { Poly p; int h = n / 2;
		if (k == 0) { for (int i = 0; i < h; i++) p.push_back({2 * i, i % 2 ? 10 : 0}); for (int i = h - 1; i >= 0; i--) p.push_back({2 * i, (i % 2 ? 10 : 0) + 3}); } // zigzag band
		if (k == 1) { p.push_back({0, -1}); p.push_back({4 * h, -1}); for (int i = h / 2; i-- > 0;) { p.push_back({8 * i + 5, 0}); p.push_back({8 * i + 5, 20}); p.push_back({8 * i + 1, 20}); p.push_back({8 * i + 1, 0}); } } // comb with vertical teeth
		if (k == 2) { std::vector<P> in; Integer x = 0, y = 0, st = 4 * (n / 4) + 8; int dx = 1, dy = 0; Poly out; for (int i = 0; i < h; i++) { out.push_back({x, y}); x += dx * st; y += dy * st; if (i % 2) st -= 4; int t = dx; dx = -dy; dy = t; } (void)in; p = out; Poly back; x = 1; y = 1; st = 4 * (n / 4) + 8 - 2; dx = 1; dy = 0; for (int i = 0; i < h; i++) { back.push_back({x, y}); x += dx * st; y += dy * st; if (i % 2) st -= 4; int t = dx; dx = -dy; dy = t; } for (int i = h - 1; i >= 0; i--) p.push_back(back[i]); } // spiral band
		if (k == 3) { for (int i = -h; i < n - h; i++) p.push_back({i, (Integer)i * i}); } // convex arc
		if (k == 4) { for (int i = 0; i < h; i++) p.push_back({i, i / 2}), p.push_back({i, i / 2}); p.clear(); for (int i = 0; i < h; i++) p.push_back({(i + 1) / 2, i / 2}); for (int i = h - 1; i >= 0; i--) p.push_back({(i + 1) / 2 - 1, i / 2 + 1}); } // staircase
		if (k == 5) { std::set<std::pair<Integer, Integer>> dirs; for (int r = 1; (int)dirs.size() < n; r++) for (int x = -r; x <= r; x++) for (int y = -r; y <= r; y++) if (std::max(std::abs(x), std::abs(y)) == r && std::gcd(x, y) == 1 && (int)dirs.size() < n) dirs.insert({x, y}); for (auto d : dirs) p.push_back(d); auto half = [](P a) { return a.second < 0 || (a.second == 0 && a.first < 0); }; std::sort(p.begin(), p.end(), [&](P a, P b) { return half(a) != half(b) ? half(a) < half(b) : (L)a.first * b.second - (L)a.second * b.first > 0; }); for (size_t i = 0; i < p.size(); i++) { Integer f = 1 + mc::mix(i) % 5; p[i].first *= f; p[i].second *= f; } } // star-shaped
		if (k == 6) { for (int i = 0; i < h; i++) p.push_back({i, 0}); for (int i = h - 1; i >= 0; i--) p.push_back({i, 1}); } // all vertices on two lines
		if (k == 7) { for (int i = 0; i < h; i++) p.push_back({i % 2 ? 100 : 1, 3 * i}); for (int i = h - 1; i >= 0; i--) p.push_back({i % 2 ? 101 : 0, 3 * i + (i % 2)}); } // horizontal folds
		if (k == 8) { for (int i = 0; i < n; i++) p.push_back({(Integer)(mc::mix(i) % 1000), (Integer)(mc::mix(i + 7777) % 1000)}); std::sort(p.begin(), p.end()); Poly u, l; for (auto q : p) { L c = cr(p[0], p.back(), q); (c >= 0 && q != p[0] && q != p.back() ? u : l).push_back(q); } std::reverse(u.begin(), u.end()); p = l; p.insert(p.end(), u.begin(), u.end()); } // x-monotone
		return p; };
	mc::parallel(bs.size(), [&](u64 i) { auto b = bs[i]; Poly p = build(b.kind, b.n); int n = p.size(); mc::state(mc::comb(i, 909));
		auto trans = [&](Poly q) { if (b.tr & 1) for (auto& x : q) std::swap(x.first, x.second); if (b.tr & 2) std::reverse(q.begin(), q.end()); if (b.tr & 4) { Integer m = 1; for (auto& x : q) m = std::max({m, std::abs(x.first), std::abs(x.second)}); for (auto& x : q) x.first *= B / m, x.second *= -(B / m); } std::rotate(q.begin(), q.begin() + (i * 7) % q.size(), q.end()); return q; };
		check(trans(p), true); int st = n > 100 && !mc::thorough ? 3 : 1;
		for (int v = (int)(i % st); v < n; v += st) for (int m = 0; m < 5; m++) { Poly q = p; int o = (v + 2 + mc::mix(v * 5 + m) % (n - 4)) % n; P c = q[o], d = q[(o + 1) % n];
			if (m == 0) q[v] = c; if (m == 1) { if ((c.first + d.first) % 2 || (c.second + d.second) % 2) { q[v] = {c.first + 1, c.second}; } else q[v] = {(c.first + d.first) / 2, (c.second + d.second) / 2}; } if (m == 2) std::swap(q[v], q[o]); if (m == 3) q.erase(q.begin() + v); if (m == 4) q[v].second += 1 + v % 3;
			check(trans(q), false); } });
	// figures of eight: exactly one pair of edges crosses, at every distance along the boundary
	mc::parallel(2 * 150, [&](u64 i) { int k1 = 2 + i / 2; for (int k2 : {2, 3, 31, 64, 65, 128, 255, 256, 257}) for (int rot : {0, 1, k1 / 2, k1, k1 + k2 - 1}) {
		Poly p; for (int t = 0; t < k1; t++) p.push_back({-10 - std::min(t, k1 - 1 - t) % 7, k1 - 1 - 2 * t}); for (int t = 0; t < k2; t++) p.push_back({10 + std::min(t, k2 - 1 - t) % 5, k2 - 1 - 2 * t}); if (i & 1) for (auto& q : p) std::swap(q.first, q.second);
		std::rotate(p.begin(), p.begin() + rot % p.size(), p.end()); mc::current("isSimple", "figure of eight"); mc::step(); mc::trace(); std::string w = "a figure of eight of " + mc::str(k1) + "+" + mc::str(k2) + " vertices from vertex " + mc::str(rot);
		if (isSimple(p)) { mc::violation("isSimple:eight", "isSimple accepts " + w); return; } if (isConvex(p) || isStrictlyConvex(p)) { mc::violation("isConvex:eight", "isConvex accepts " + w); return; } }
		mc::state(mc::comb(i, 8888)); });
	// only left turns, but several rotations: stars and polygons that are traversed repeatedly
	mc::parallel(70, [&](u64 i) { int w = i < 40 ? 2 + i : std::vector<int>{63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4097, 32769, 65535, 65536, 65537, 65538, 70000, 100, 200, 300, 400, 500, 600, 1000}[i - 40]; mc::state(mc::comb(w, 7777));
		for (Poly one : {Poly{{0, 0}, {5, 0}, {0, 5}}, Poly{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, Poly{{1, 0}, {3, 0}, {4, 2}, {2, 5}, {0, 3}}}) { Poly p; for (int k = 0; k < w; k++) p.insert(p.end(), one.begin(), one.end()); mc::current("isConvex", "repeated polygon"); mc::step(); mc::trace(); if (isConvex(p) || isStrictlyConvex(p)) { mc::violation("isConvex:winding", "isConvex accepts a polygon that is traversed " + mc::str(w) + " times"); return; } if (w < 300 && isSimple(p)) { mc::violation("isSimple:winding", "isSimple accepts a polygon that is traversed " + mc::str(w) + " times"); return; } }
		for (int extra : {1, 2, 5}) { if (w > 300) break; int n = 2 * w + extra; Poly p; for (int k = 0; k < n; k++) { long double a = 2 * 3.14159265358979323846L * ((long long)k * w % n) / n; p.push_back({(Integer)std::llround(5e8L * std::cos(a)), (Integer)std::llround(5e8L * std::sin(a))}); } mc::current("isConvex", "star"); mc::step(); if (isConvex(p) || isStrictlyConvex(p)) { mc::violation("isConvex:winding", "isConvex accepts the star {" + mc::str(n) + "/" + mc::str(w) + "}"); return; } if (isSimple(p)) { mc::violation("isSimple:star", "isSimple accepts the star {" + mc::str(n) + "/" + mc::str(w) + "}"); return; } } });
	// too large coordinates are refused by all of them
	mc::parallel(1, [&](u64) {
		for (Integer big : {B + 1, -B - 1, std::numeric_limits<Integer>::max(), std::numeric_limits<Integer>::min(), std::numeric_limits<Integer>::min() + 1, Integer(1) << 40}) for (int v = 0; v < 4; v++) for (int yc = 0; yc < 2; yc++) {
			Poly p = {{0, 0}, {2, 0}, {2, 2}, {0, 2}}; (yc ? p[v].second : p[v].first) = big; std::string w = "(" + S(p) + ") was not refused"; mc::step(4); mc::trace(); mc::current("bounds", S(p));
			if (!vh::refuses([&] { isConvex(p); })) mc::violation("isConvex:bounds", "isConvex" + w); if (!vh::refuses([&] { isStrictlyConvex(p); })) mc::violation("isStrictlyConvex:bounds", "isStrictlyConvex" + w);
			if (!vh::refuses([&] { isSimple(p); })) mc::violation("isSimple:bounds", "isSimple" + w); if (!vh::refuses([&] { isCCW(p); })) mc::violation("isCCW:bounds", "isCCW" + w);
		}
		Poly p = {{-B, -B}, {B, -B}, {B, B}, {-B, B}}; if (!isConvex(p) || !isStrictlyConvex(p) || !isSimple(p) || !isCCW(p)) mc::violation("bounds:largest", "the largest square is not accepted");
		// vectors
		for (int a = -3; a <= 3; a++) for (int b = -3; b <= 3; b++) for (int c = -3; c <= 3; c++) for (int d = -3; d <= 3; d++) { P x{a, b}, y{c, d}; mc::step(3); if (cross(x, y) != a * d - b * c) mc::violation("cross:2", "cross"); if (dot(x, y) != a * c + b * d) mc::violation("dot", "dot"); for (int e = -2; e <= 2; e++) { P z{e, 2 - e}; if (cross(z, x, y) != (L)cr(z, x, y)) mc::violation("cross:3", "cross of three points " + S({z, x, y})); } std::complex<Real> u(a, b), v(c, d); if (cross(u, v) != a * d - b * c || dot(u, v) != a * c + b * d) mc::violation("cross:complex", "cross/dot of complex"); }
	});
	mc::sample("all 9^6 distinct vertex sequences of a 3x3 lattice, each compared with the definition of simple/convex/strictly convex/ccw");
	return mc::finish();
}
