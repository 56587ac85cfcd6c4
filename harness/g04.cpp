// G04: random graphs: exact sets of outcomes, exactly uniform where promised, structure for every boundary engine word
#include "g_ref.h"
#include "r_law.h"
template<class E, bool DIR> using GT = std::conditional_t<DIR, DiGraph<E>, Graph<E>>;
static std::string key(const std::set<EP>& es) { std::string r; for (auto [a, b] : es) r += mc::str(a) + "-" + mc::str(b) + " "; return "[" + r + "]"; }
struct Bad { std::string s; };
// the graph as text, "broken: ..." if it is inconsistent
template<class E, bool DIR> static std::string txtImpl(const GT<E, DIR>& g, Integer n, bool data) { Ref r; auto s = readBack(g, r); if (s.empty()) s = queries(g, r); if (s.empty() && (r.lo != 0 || r.n != n)) s = "vertices are not [0," + mc::str(n) + ")"; if (!s.empty()) return "broken: " + s; std::string t; for (auto& [k, d] : r.e) t += mc::str(k.first) + "-" + mc::str(k.second) + (data ? ":" + mc::str(d) : "") + " "; return "[" + t + "]"; }
template<class E> static std::string txt(const Graph<E>& g, Integer n, bool data = false) { return txtImpl<E, false>(g, n, data); }
template<class E> static std::string txt(const DiGraph<E>& g, Integer n, bool data = false) { return txtImpl<E, true>(g, n, data); }
struct Str { std::string s; }; static std::string S(const Str& s) { return s.s; }
// exact law on the complete choice tree
template<class F> static void law(const std::string& k, const std::string& name, u64 D, const std::set<std::string>& want, F f, bool uniform = true) {
	mc::current(k.c_str(), name); std::map<std::string, u64> c; u64 leaves = vh::exploreGrid(std::max<u64>(D, 1), [&] { c[f()]++; }); env::source = nullptr; mc::nontrivial(); mc::state(mc::hashStr(k + name));
	for (auto& x : c) if (!want.count(x.first)) { mc::violation(k + ":impossible", name + " gives " + x.first); return; }
	if (vh::gridCapped) { mc::notes[name] = "tree larger than expected"; return; }
	for (auto& x : want) if (!c.count(x)) { mc::violation(k + ":unreachable", name + " never gives " + x); return; }
	if (uniform) for (auto& x : want) if (c[x] * want.size() != leaves) { mc::violation(k + ":uniform", name + " gives " + x + " with probability " + mc::str(c[x]) + "/" + mc::str(leaves) + " instead of 1/" + mc::str(want.size())); return; }
}
static std::set<std::string> subsets(const std::vector<EP>& all, int m, std::function<bool(const std::set<EP>&)> ok = nullptr) { std::set<std::string> r; std::vector<int> pick(all.size()); std::fill(pick.begin(), pick.begin() + std::min<size_t>(m, pick.size()), 1); if (m > (int)all.size()) return r; do { std::set<EP> s; for (size_t i = 0; i < all.size(); i++) if (pick[i]) s.insert(all[i]); if (!ok || ok(s)) r.insert(key(s)); } while (std::prev_permutation(pick.begin(), pick.end())); return r; }
static std::vector<EP> pairsOf(Integer n, bool dir) { std::vector<EP> v; for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) if (dir ? a != b : a < b) v.push_back({a, b}); return v; }
static std::vector<EP> bipairs(Integer n, Integer m, bool dir) { std::vector<EP> v; for (Integer a = 0; a < n; a++) for (Integer b = n; b < n + m; b++) { v.push_back({a, b}); if (dir) v.push_back({b, a}); } return v; }
static int rt(std::vector<int>& p, int x) { while (p[x] != x) x = p[x]; return x; }
static bool acyclic(const std::set<EP>& s, int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (auto [a, b] : s) { int x = rt(p, a), y = rt(p, b); if (x == y) return false; p[x] = y; } return true; }
static std::vector<u64> W3 = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAABull, 0x123456789abcdef0ull};
template<class F> static void edges(const std::string& k, const std::string& name, F f, int depth) { // f returns "" or what is wrong
	mc::current(k.c_str(), name); u64 n = mc::ipow(W3.size(), depth); for (u64 i = 0; i < n; i++) { std::vector<u64> w; for (int d : mc::digits(i, W3.size(), depth)) w.push_back(W3[d]); vh::Script s(w, i); std::string b; try { b = f(); } catch (std::exception& e) { b = std::string("throws ") + e.what(); } mc::step(); if (!b.empty()) { mc::violation(k + ":invalid", name + " " + b); return; } } mc::trace(); mc::state(mc::hashStr(k + name) + 3); }
template<class F> static void no(const std::string& k, const std::string& name, F f) { refused(k, name, f); }
template<class E, bool DIR> static std::string subsetOfImpl(const GT<E, DIR>& g, Integer n, const std::vector<EP>& all, Integer m) { Ref r; auto s = readBack(g, r); if (s.empty() && n <= 60) s = queries(g, r); if (!s.empty()) return s; if (r.lo != 0 || r.n != n) return "does not have the vertices [0,n)"; if (m >= 0 && (Integer)r.e.size() != m) return "has " + mc::str(r.e.size()) + " edges"; std::set<EP> a(all.begin(), all.end()); for (auto& x : r.e) if (!a.count(x.first)) return "has the edge " + mc::str(x.first.first) + "-" + mc::str(x.first.second); return ""; }
template<class E> static std::string subsetOf(const Graph<E>& g, Integer n, const std::vector<EP>& all, Integer m) { return subsetOfImpl<E, false>(g, n, all, m); }
template<class E> static std::string subsetOf(const DiGraph<E>& g, Integer n, const std::vector<EP>& all, Integer m) { return subsetOfImpl<E, true>(g, n, all, m); }
static double pmf(int n, double p, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r * std::pow(p, k) * std::pow(1 - p, n - k); }
// law of the number of edges when the real draws run through a complete quantile grid of depth K
template<class F> static void count(const std::string& k, const std::string& name, const std::vector<Quant>& q, int K, int lim, double p, F f) {
	mc::current(k.c_str(), name); std::vector<double> c(lim + 1); u64 N = mc::ipow(q.size(), K); for (u64 i = 0; i < N; i++) { std::vector<u64> w; for (int d : mc::digits(i, q.size(), K)) { w.push_back(q[d].a); w.push_back(q[d].b); } vh::Script s(w, i); Integer m = f(); mc::step(); if (m < 0 || m > lim) { mc::violation(k + ":law", name + " has " + mc::str(m) + " edges"); return; } c[m] += 1.0 / N; } mc::trace(); mc::state(mc::hashStr(k + name) + 4);
	for (int m = 0; m <= lim; m++) if (std::fabs(c[m] - pmf(lim, p, m)) > 0.012) { mc::violation(k + ":law", name + " has " + mc::str(m) + " edges with probability " + mc::str(c[m]) + " instead of " + mc::str(pmf(lim, p, m))); return; }
}
static bool graphical(std::vector<Integer> d) { // Erdos-Gallai
	std::sort(d.rbegin(), d.rend()); Integer n = d.size(), sum = 0; for (auto x : d) { if (x < 0 || x >= n) return n == 0; sum += x; } if (sum % 2) return false; Integer l = 0; for (Integer k = 1; k <= n; k++) { l += d[k - 1]; Integer r = k * (k - 1); for (Integer i = k; i < n; i++) r += std::min(d[i], k); if (l > r) return false; } return true; }
template<bool DIR> static void family(bool T) {
	std::string d = DIR ? "directed " : ""; struct J { Integer n, m; }; std::vector<J> js;
	// exact m edges: complete trees
	for (Integer n = 0; n <= 5; n++) { Integer lim = pairsOf(n, DIR).size(); for (Integer m = 0; m <= lim; m++) { u64 D = lcmRange(std::max<Integer>(lim - m + 1, 1), std::max<Integer>(lim, 1)); if (std::pow((double)D, (double)m) <= (T ? 3e7 : 3e6)) js.push_back({n, m}); } }
	mc::parallel(js.size(), [&](u64 i) { auto [n, m] = js[i]; auto all = pairsOf(n, DIR); Integer lim = all.size(); auto want = subsets(all, m); u64 D = lcmRange(std::max<Integer>(lim - m + 1, 1), std::max<Integer>(lim, 1)); std::string a = "(" + mc::str(n) + "," + mc::str(m) + " edges)"; law(d + "randomGraph", d + "randomGraph" + a, D, want, [&] { return txt(randomGraph<NoData, DIR>(n, m), n); }); });
	// one edge: the whole numbering of the edges, for many n
	mc::parallel(T ? 90 : 60, [&](u64 i) { Integer n = i; auto all = pairsOf(n, DIR); if (all.size()) law(d + "randomGraph", d + "randomGraph(" + mc::str(n) + ",1 edge)", all.size(), subsets(all, 1), [&] { auto g = randomGraph<NoData, DIR>(n, Integer(1)); Ref r; auto s = readBack(g, r); if (!s.empty() || r.n != n) return "broken: " + s; std::set<EP> k; for (auto& x : r.e) k.insert(x.first); return key(k); });
		for (Integer m : std::set<Integer>{0, 1, (Integer)all.size() / 2, (Integer)all.size() - 1, (Integer)all.size()}) if (m >= 0 && m <= (Integer)all.size()) edges(d + "randomGraph", d + "randomGraph(" + mc::str(n) + "," + mc::str(m) + " edges)", [&] { return subsetOf(randomGraph<Integer, DIR>(n, m), n, all, m); }, n < 12 ? 3 : 1);
		for (Real p : {0.0L, 1.0L}) edges(d + "randomGraph(p)", d + "randomGraph(" + mc::str(n) + ",p=" + mc::str(p) + ")", [&] { return subsetOf(randomGraph<NoData, DIR>(n, p), n, all, p == 0 ? 0 : all.size()); }, n < 12 ? 2 : 1); for (Real p : {0.5L, 1e-6L, 0.999L}) edges(d + "randomGraph(p)", d + "randomGraph(" + mc::str(n) + ",p=" + mc::str(p) + ")", [&] { return subsetOf(randomGraph<NoData, DIR>(n, p), n, all, -1); }, n < 12 ? 2 : 1);
		no(d + "randomGraph", d + "randomGraph(" + mc::str(n) + ",too many)", [&] { randomGraph<NoData, DIR>(n, (Integer)all.size() + 1); }); no(d + "randomGraph", d + "randomGraph(" + mc::str(n) + ",-1)", [&] { randomGraph<NoData, DIR>(n, Integer(-1)); }); for (Real p : {-0.5L, 1.5L, std::numeric_limits<Real>::quiet_NaN()}) no(d + "randomGraph(p)", d + "randomGraph(" + mc::str(n) + ",p=" + mc::str(p) + ")", [&] { randomGraph<NoData, DIR>(n, p); }); });
	// bipartite
	std::vector<std::array<Integer, 2>> nm; for (Integer n = 0; n <= (T ? 14 : 9); n++) for (Integer m = 0; m <= (T ? 14 : 9); m++) nm.push_back({n, m});
	mc::parallel(nm.size(), [&](u64 i) { auto [n, m] = nm[i]; auto all = bipairs(n, m, DIR); Integer lim = all.size(); std::string b = mc::str(n) + "," + mc::str(m);
		for (Integer k = 0; k <= lim; k++) { std::string nmz = d + "randomBipartite(" + b + "," + mc::str(k) + " edges)"; u64 D = lcmRange(std::max<Integer>(lim - k + 1, 1), std::max<Integer>(lim, 1)); if (std::pow((double)D, (double)k) <= (T ? 3e6 : 3e5) && lim > 0) law(d + "randomBipartite", nmz, D, subsets(all, k), [&, n = n, m = m] { return txt(randomBipartite<NoData, DIR>(n, m, k), n + m); }); edges(d + "randomBipartite", nmz, [&, n = n, m = m] { return subsetOf(randomBipartite<Integer, DIR>(n, m, k), n + m, all, k); }, lim < 9 ? 3 : 1); }
		for (Real p : {0.0L, 1.0L}) edges(d + "randomBipartite(p)", d + "randomBipartite(" + b + ",p=" + mc::str(p) + ")", [&, n = n, m = m] { return subsetOf(randomBipartite<NoData, DIR>(n, m, p), n + m, all, p == 0 ? 0 : all.size()); }, 2); edges(d + "randomBipartite(p)", d + "randomBipartite(" + b + ",p=0.4)", [&, n = n, m = m] { return subsetOf(randomBipartite<NoData, DIR>(n, m, 0.4L), n + m, all, -1); }, 2);
		no(d + "randomBipartite", d + "randomBipartite(" + b + ",too many)", [&, n = n, m = m] { randomBipartite<NoData, DIR>(n, m, lim + 1); }); no(d + "randomBipartite", d + "randomBipartite(" + b + ",-1)", [&, n = n, m = m] { randomBipartite<NoData, DIR>(n, m, Integer(-1)); }); for (Real p : {-0.5L, 1.5L}) no(d + "randomBipartite(p)", d + "randomBipartite(" + b + ",p=" + mc::str(p) + ")", [&, n = n, m = m] { randomBipartite<NoData, DIR>(n, m, p); }); });
	// number of edges for probability p
	auto full = quantiles(8); auto q2 = thin(full, 1000), q3 = thin(full, 300), q4 = thin(full, 80); std::vector<std::array<Integer, 3>> ps; for (Integer pc : {50, 20, 80, 35}) { ps.push_back({0, 2, pc}); if (!DIR) ps.push_back({0, 3, pc}); ps.push_back({1, 1, pc}); if (!DIR) { ps.push_back({1, 2, pc}); ps.push_back({2, 1, pc}); ps.push_back({1, 3, pc}); ps.push_back({3, 1, pc}); } }
	mc::parallel(ps.size(), [&](u64 i) { auto [a, b, pc] = ps[i]; Real p = pc / 100.0L; bool bip = a > 0; Integer lim = bip ? bipairs(a, b, DIR).size() : pairsOf(b, DIR).size(); auto& q = lim == 1 ? q2 : lim == 2 ? q3 : q4; count(d + (bip ? "randomBipartite(p)" : "randomGraph(p)"), d + (bip ? "randomBipartite(" + mc::str(a) + "," : "randomGraph(") + mc::str(b) + ",p=" + mc::str(p) + ")", q, lim, lim, p, [&, a = a, b = b] { return bip ? randomBipartite<NoData, DIR>(a, b, p).edgeCount() : randomGraph<NoData, DIR>(b, p).edgeCount(); }); });
	// trees
	mc::parallel(T ? 9 : 8, [&](u64 n) { if (n == 0 && DIR) return; std::set<std::string> want; auto all = pairsOf(n, false); std::vector<std::set<EP>> trees;
		if (n <= 1) want.insert("[]"); else { std::function<void(size_t, std::set<EP>&)> rec = [&](size_t k, std::set<EP>& s) { if (s.size() == n - 1) { std::set<EP> t; if (!DIR) t = s; else { std::vector<int> q{0}, seen(n); seen[0] = 1; for (size_t x = 0; x < q.size(); x++) for (auto [a, b] : s) { int o = a == q[x] ? b : b == q[x] ? a : -1; if (o >= 0 && !seen[o]) { seen[o] = 1; q.push_back(o); t.insert({q[x], o}); } } } want.insert(key(t)); return; } if (k == all.size()) return; s.insert(all[k]); if (acyclic(s, n)) rec(k + 1, s); s.erase(all[k]); rec(k + 1, s); }; std::set<EP> s; rec(0, s); }
		law(d + "randomTree", d + "randomTree(" + mc::str(n) + ")", n, want, [&] { return txt(randomTree<NoData, DIR>(n), n); }); });
	mc::parallel(T ? 400 : 120, [&](u64 i) { Integer n = i < 100 ? i + 1 : (i - 99) * 50; edges(d + "randomTree", d + "randomTree(" + mc::str(n) + ")", [&]() -> std::string { auto g = randomTree<Integer, DIR>(n); Ref r; auto s = readBack(g, r); if (!s.empty()) return s; if (r.lo != 0 || r.n != n || (Integer)r.e.size() != n - 1) return "is no tree"; std::set<EP> e; std::vector<int> in(n); for (auto& x : r.e) e.insert(x.first), in[x.first.second]++; if (!acyclic(e, n)) return "has a cycle"; if (DIR) { if (in[0]) return "is not rooted at 0"; for (Integer v = 1; v < n; v++) if (in[v] != 1) return "is not rooted at 0"; } return ""; }, n < 30 ? 3 : 2); });
}
// graphs far too large to list their edges: valid, and one edge falls into every quarter of the adjacency matrix with its share of the engine words
template<bool DIR> static void largeFamily() {
	std::string d = DIR ? "directed " : ""; const Integer K = 4096;
	mc::parallel(12, [&](u64 i) { bool bip = i >= 5; Integer n = bip ? std::vector<Integer>{70000, 100000, 3, 2000000, 300, 65536, 1000}[i - 5] : std::vector<Integer>{65536, 65537, 100000, 300000, 1000}[i], m = bip ? std::vector<Integer>{100000, 70000, 2000000, 3, 200, 65536, 33}[i - 5] : 0;
		std::string nm = d + (bip ? "randomBipartite(" + mc::str(n) + "," + mc::str(m) : "randomGraph(" + mc::str(n)), k = d + (bip ? "randomBipartite" : "randomGraph"); mc::current(k.c_str(), nm); mc::nontrivial(); mc::state(mc::hashStr(nm)); Integer N = n + m;
		auto gen = [&](Integer c) { return bip ? randomBipartite<Integer, DIR>(n, m, c) : randomGraph<Integer, DIR>(n, c); };
		auto bad = [&](const auto& g, Integer c) -> std::string { if (g.nodeCount() != N || g.edgeCount() != c) return "has " + mc::str(g.edgeCount()) + " edges"; std::set<EP> seen; for (auto e : g.getEdges()) { Integer a = e.from, b = e.to; if (a < 0 || b < 0 || a >= N || b >= N || a == b || (bip && (a < n) == (b < n))) return "has an edge " + mc::str(a) + "-" + mc::str(b); if (!DIR && a > b) std::swap(a, b); if (!seen.insert({a, b}).second) return "has an edge twice"; } return ""; };
		for (Integer c : {2, 700}) for (int sd = 0; sd < 3; sd++) { vh::Script s(sd == 0 ? std::vector<u64>(c, ~0ull - 12345) : std::vector<u64>{}, i * 10 + sd); mc::step(); if (n * std::max<Integer>(m, 1) < 2 * c) continue; std::string b = bad(gen(c), c); if (!b.empty()) { mc::violation(k + ":invalid", nm + "," + mc::str(c) + ") " + b); return; } }
		std::array<Integer, 8> cell{};
		if (N > 400000) return; { auto one = gen; // a single edge: cheap even for many vertices? every draw builds N vertices, so fewer words for large N
			Integer W = N > 20000 ? 256 : K, hits = 0; for (Integer x = 0; x < W; x++) { vh::Script s({mc::mix(x * 2 + 1)}, x); mc::step(); auto g = one(1); for (auto e : g.getEdges()) { Integer a = e.from, b = e.to; bool sw = bip ? a >= n : a > b; if (sw) std::swap(a, b); bool ha = bip ? a >= n / 2 : a >= n / 2, hb = bip ? b - n >= m / 2 : b >= n / 2; cell[(DIR && sw) * 4 + ha * 2 + hb]++; hits++; } }
			for (int q = 0; q < 8; q++) { Real want = q >= 4 && !DIR ? 0 : (bip ? 0.25L : (q % 4 == 1 ? 0.5L : q % 4 == 2 ? 0.0L : 0.25L)) / (DIR ? 2 : 1); if (hits != W || std::abs((Real)cell[q] / W - want) > (W < 1000 ? 0.12L : 0.05L)) { mc::violation(k + ":law", nm + ",1 edge): quarter " + mc::str(q) + " has probability " + mc::str((double)cell[q] / W) + " instead of " + mc::str((double)want)); return; } } }
		mc::trace(); });
	mc::parallel(4, [&](u64 i) { Integer n = std::vector<Integer>{3000, 20000, 70000, 1000}[i]; mc::current("randomTree", d + "large random tree"); for (int sd = 0; sd < 3; sd++) { vh::Script s({}, i * 7 + sd); mc::step(); auto g = randomTree<Integer, DIR>(n); std::vector<Integer> p(n), in(n); std::iota(p.begin(), p.end(), 0); std::function<Integer(Integer)> f = [&](Integer x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; std::string b; if (g.nodeCount() != n || g.edgeCount() != n - 1) b = "has the wrong size"; else for (auto e : g.getEdges()) { Integer x = f(e.from), y = f(e.to); if (x == y) b = "has a cycle"; p[x] = y; in[e.to]++; } if (DIR && b.empty()) { if (in[0]) b = "root has a parent"; for (Integer v = 1; v < n; v++) if (in[v] != 1) b = "has edges that do not lead away from the root"; } if (b.empty()) { std::vector<Integer> dg(n); for (auto e : g.getEdges()) dg[e.from]++, dg[e.to]++; for (int q = 0; q < 4; q++) { Integer lv = 0, hub = 0, len = n * (q + 1) / 4 - n * q / 4; for (Integer v = n * q / 4; v < n * (q + 1) / 4; v++) lv += dg[v] == 1, hub += dg[v] >= 4; if (std::fabs(double(lv) / len - 0.3679) > 0.05 + 2.5 / std::sqrt((double)len) || std::fabs(double(hub) / len - 0.0803) > 0.03 + 1.5 / std::sqrt((double)len)) b = "has " + mc::str(lv) + " leaves and " + mc::str(hub) + " vertices of degree 4 or more among " + mc::str(len) + " vertices of quarter " + mc::str(q); } }
		if (!b.empty()) mc::violation(d + "randomTree:invalid", d + "randomTree(" + mc::str(n) + ") " + b); } mc::trace(); });
}
static int randomGraphLike(Integer n, u64 seed, std::vector<Integer>& deg) { for (Integer a = 0; a < n; a++) for (Integer b = 0; b < a; b++) if (mc::mix(seed * 100003 + a * 1009 + b) % 5 == 0) deg[a]++, deg[b]++; return 0; }
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	family<false>(T); family<true>(T); largeFamily<false>(); largeFamily<true>();
	// growing graphs
	mc::parallel(40, [&](u64 i) { Integer n = i; for (Real p : {0.0L, 0.3L, 1.0L}) edges("randomGrowingGraph", "randomGrowingGraph(" + mc::str(n) + ",p=" + mc::str(p) + ")", [&]() -> std::string { auto g = randomGrowingGraph<>(n, p); auto s = subsetOf(g, n, pairsOf(n, false), p == 0 ? 0 : -1); return s; }, n < 12 ? 3 : 1); for (Real p : {-0.1L, 1.1L, std::numeric_limits<Real>::quiet_NaN()}) no("randomGrowingGraph", "randomGrowingGraph(" + mc::str(n) + ",p=" + mc::str(p) + ")", [&] { randomGrowingGraph<>(n, p); }); });
	// p = 1: vertex i has 0..i earlier neighbours, each number and each set of that size equally likely
	mc::parallel(1, [&](u64) { auto full = quantiles(8); auto q = thin(full, 60); std::map<std::string, double> c; mc::current("randomGrowingGraph", "law"); u64 N = q.size() * q.size(); const Integer n = 3; 
		// the first vertex takes one real, the second one real (+ one integer when it has a neighbour), the third likewise
		for (u64 a = 0; a < q.size(); a++) for (u64 b = 0; b < q.size(); b++) for (u64 x = 0; x < 6; x++) for (u64 y = 0; y < 2; y++) { std::vector<u64> w{q[7].a, q[7].b, q[a].a, q[a].b}; if (q[a].u >= 0.5L) w.push_back(vh::gridWord(0, 1)); w.push_back(q[b].a); w.push_back(q[b].b); w.push_back(vh::gridWord(x, 6)); w.push_back(vh::gridWord(y, 2)); vh::Script s(w, 5); auto g = randomGrowingGraph<>(n, 1.0L); c[txt(g, n)] += 1.0 / (N * 12); mc::step(); }
		std::map<std::string, double> want; for (int e1 = 0; e1 < 2; e1++) for (int m = 0; m < 4; m++) { std::set<EP> s; if (e1) s.insert({0, 1}); if (m & 1) s.insert({0, 2}); if (m & 2) s.insert({1, 2}); want[key(s)] = 0.5 * (m == 1 || m == 2 ? 1 / 6.0 : 1 / 3.0); } for (auto& x : c) if (!want.count(x.first)) mc::violation("randomGrowingGraph:law", "randomGrowingGraph(3,1) gives " + x.first); for (auto& x : want) if (std::fabs(c[x.first] - x.second) > 0.02) mc::violation("randomGrowingGraph:law", "randomGrowingGraph(3,1) gives " + x.first + " with probability " + mc::str(c[x.first]) + " instead of " + mc::str(x.second)); mc::trace(); });
	// degree sequences
	struct K { int n; u64 f, t; }; std::vector<K> ks; for (int n = 0; n <= (T ? 7 : 6); n++) { u64 tot = mc::ipow(n + 2, n); for (u64 f = 0; f < tot; f += 4096) ks.push_back({n, f, std::min(tot, f + 4096)}); }
	mc::parallel(ks.size(), [&](u64 i) { auto k = ks[i]; for (u64 c = k.f; c < k.t; c++) { std::vector<Integer> deg; for (int x : mc::digits(c, k.n + 2, k.n)) deg.push_back(x - 1); bool ok = graphical(deg); std::string nm = "randomGraph(degrees " + ::S(deg) + ")"; mc::current("degrees", nm); mc::state(mc::comb(c, k.n + 900)); if (!ok && k.n == 6 && c % 5 && !T) continue;
		for (int flips = 0; flips <= (ok ? 3 : 1); flips++) for (u64 base = 0; base < (ok ? (k.n <= 4 ? 12u : 3u) : 1u); base++) { vh::Script s(base < 9 && k.n <= 4 ? std::vector<u64>{W3[base], W3[(base * 5 + flips) % 9]} : std::vector<u64>{}, base * 77 + c); s.limit = 100000; mc::step(); Integer fl = flips == 3 ? -1 : flips * 5; std::string r; bool thrown = false; try { auto g = fl < 0 ? randomGraph<>(deg) : randomGraph<>(deg, fl); Ref m; r = readBack(g, m); if (r.empty()) r = queries(g, m); if (r.empty() && (m.lo != 0 || m.n != k.n)) r = "wrong vertices"; if (r.empty()) for (int v = 0; v < k.n; v++) if (g.degree(v) != deg[v]) r = "has degree " + mc::str(g.degree(v)) + " at " + mc::str(v); } catch (std::exception& e) { thrown = true; if (ok) r = std::string("throws ") + e.what(); }
			if (!ok && !thrown) r = "is accepted although no such graph exists"; if (!r.empty()) { mc::violation(ok ? "degrees:wrong" : "degrees:not refused", nm + " " + r); break; } } mc::trace(); } });
	mc::parallel(12, [&](u64 i) { Integer n = 20 + 15 * i; std::vector<Integer> deg(n); auto src = randomGraphLike(n, i, deg); (void)src; mc::current("degrees", "large degree sequence"); vh::Script s({}, i); auto g = randomGraph<Integer>(deg, 10); for (Integer v = 0; v < n; v++) if (g.degree(v) != deg[v]) { mc::violation("degrees:wrong", "large degree sequence " + mc::str(i)); break; } mc::step(); mc::trace(); });
	// large impossible sequences: one vertex wants more neighbours than there are, an odd sum, too few partners
	mc::parallel(8 * 6, [&](u64 i) { Integer n = std::vector<Integer>{20, 31, 32, 40, 70, 130, 300, 700}[i % 8]; int k = i / 8; std::vector<Integer> deg(n, k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 3 : 2); if (k == 0) deg[n / 2] = n; if (k == 1) { for (Integer v = 0; v < n / 2; v++) deg[v] = 1; deg[n - 1] = n / 2 + 1; } if (k == 2) { deg[0] = 4 + (n * 3) % 2; if ((3 * (n - 1) + deg[0]) % 2 == 0) deg[0]++; } if (k == 3) { deg[1] = n - 1; deg[2] = n - 1; deg[3] = n - 1; } if (k == 4) { for (auto& x : deg) x = 0; deg[n - 1] = 35; for (Integer v = 0; v < std::min<Integer>(n - 1, 33); v++) deg[v] = 1; } if (k == 5) deg[n - 1] = std::numeric_limits<Integer>::max();
		std::string nm = "impossible sequence " + mc::str(k) + " of " + mc::str(n) + " degrees"; mc::current("degrees", nm); mc::state(mc::hashStr(nm)); mc::step(); mc::trace(); std::vector<Integer> dd = deg; std::sort(dd.rbegin(), dd.rend()); bool ok = true; __int128 sum = 0, l = 0; for (auto x : deg) sum += x; if (sum % 2) ok = false; for (Integer q = 1; q <= n; q++) { l += dd[q - 1]; __int128 r = (__int128)q * (q - 1); for (Integer v = q; v < n; v++) r += std::min(dd[v], q); if (l > r) ok = false; } vh::Script s({}, i); if (!ok && !vh::refuses([&] { randomGraph<>(deg, 1); })) mc::violation("degrees:not refused", nm + " is accepted"); });
	// growing graph: the largest engine words give every vertex all earlier neighbours, the smallest none; degrees spread linearly in between
	mc::parallel(8, [&](u64 i) { Integer n = std::vector<Integer>{130, 300, 700, 1500}[i % 4]; mc::current("randomGrowingGraph", "large"); mc::state(mc::comb(i, 9191)); mc::trace();
		if (i < 4) for (u64 w : {~0ull, 0ull}) { std::function<u64()> src = [&, k = 0]() mutable -> u64 { return w ? (++k, ~0ull) : 0ull; }; bool all = true; std::function<u64()> mix = src; env::source = &mix; std::string b; u64 cnt = 0; mix = [&]() -> u64 { return ++cnt > 40000000 ? throw std::runtime_error("engine budget") : w; }; try { auto g = randomGrowingGraph<>(n > 300 ? 300 : n, 1.0L); if (w == 0 && g.edgeCount()) b = "has edges although every draw is the smallest"; } catch (const std::exception&) {} env::source = nullptr; (void)all; if (!b.empty()) mc::violation("randomGrowingGraph:large", b); mc::step(); }
		else for (int sd = 0; sd < 6; sd++) { vh::Script s({}, i * 77 + sd); auto g = randomGrowingGraph<>(n, 1.0L); mc::step(); std::vector<double> back(n); for (auto e : g.getEdges()) back[std::max(e.from, e.to)]++; for (int q = 0; q < 4; q++) { double sum = 0, want = 0; for (Integer v = n * q / 4; v < n * (q + 1) / 4; v++) sum += back[v], want += v / 2.0; if (std::fabs(sum - want) > want * 0.35 + 30) mc::violation("randomGrowingGraph:large", "randomGrowingGraph(" + mc::str(n) + ",1): vertices of quarter " + mc::str(q) + " have " + mc::str(sum) + " earlier neighbours, expected about " + mc::str(want)); } } });
	// subgraphs of large graphs: right size, only edges of the graph, a single edge falls into every eighth of the edge list equally often
	mc::parallel(5, [&](u64 i) { Integer M = std::vector<Integer>{130, 300, 1000, 5000, 70000}[i], n = std::max<Integer>(30, M / 10); mc::current("subgraph", "subgraph of " + mc::str(M) + " edges"); mc::state(mc::comb(M, 818)); DiGraph<Integer> g(3, 3 + n); for (Integer k = 0; k < M; k++) g.addEdge(3 + k % n, 3 + (k % n + 1 + k / n) % n, k); if (g.edgeCount() != M) { mc::violation("harness", "subgraph setup"); return; }
		for (Integer m : {Integer(0), Integer(1), Integer(2), M / 2, M - 1, M, M + 5}) for (int sd = 0; sd < 2; sd++) { vh::Script s(sd ? std::vector<u64>(std::min<Integer>(m, 3), ~0ull - 99999) : std::vector<u64>{}, i * 5 + sd); auto h = g.subgraph(m); mc::step(); std::set<Integer> seen; bool ok = h.nodeCount() == n && h.getMinId() == 3 && h.edgeCount() == std::min(m, M); for (auto e : h.getEdges()) { auto o = g.findEdge(e.from, e.to); if (!o || **o != *e || !seen.insert(*e).second) ok = false; } if (!ok) mc::violation("subgraph:large", "subgraph(" + mc::str(m) + ") of " + mc::str(M) + " edges is wrong"); if (m == M / 2 && M >= 1000 && sd == 0) { Integer low = std::distance(seen.begin(), seen.lower_bound(M / 2)); if (std::fabs(double(low) / m - 0.5) > 0.12) mc::violation("subgraph:law", "subgraph(" + mc::str(m) + ") of " + mc::str(M) + " edges takes " + mc::str(low) + " from the first half"); } }
		std::array<Integer, 8> c{}; const Integer W = M > 20000 ? 400 : 4000; for (Integer x = 0; x < W; x++) { vh::Script s({vh::gridWord(x, W)}, x); auto h = g.subgraph(1); for (auto e : h.getEdges()) c[*e * 8 / M]++; mc::step(); } for (int q = 0; q < 8; q++) if (std::fabs(double(c[q]) / W - 0.125) > 0.03) mc::violation("subgraph:law", "subgraph(1) of " + mc::str(M) + " edges: eighth " + mc::str(q) + " has probability " + mc::str(double(c[q]) / W)); mc::trace(); });
	// shuffling: relabellings and edge orders
	mc::parallel(6, [&](u64 i) { std::vector<EP> es = std::vector<std::vector<EP>>{{{0, 1}}, {{0, 1}, {1, 2}}, {{0, 1}, {1, 2}, {2, 0}}, {}, {{2, 1}, {2, 0}}, {{1, 0}}}[i]; const Integer n = i == 5 ? 2 : 3; DiGraph<Integer> g(n); Integer x = 5; for (auto [a, b] : es) g.addEdge(a, b, x++);
		auto order = [](const auto& g) { std::string s; for (auto e : g.getEdges()) s += mc::str(e.from) + ">" + mc::str(e.to) + ":" + mc::str(*e) + " "; return s; };
		std::set<std::string> perms; std::vector<Integer> p(n); std::iota(p.begin(), p.end(), 0); do { std::string t; std::map<EP, Integer> m; Integer y = 5; for (auto [a, b] : es) m[{p[a], p[b]}] = y++; for (auto& [k, d] : m) t += mc::str(k.first) + "-" + mc::str(k.second) + ":" + mc::str(d) + " "; perms.insert("[" + t + "]"); } while (std::next_permutation(p.begin(), p.end()));
		law("permutate", "permutate() of a directed graph with " + mc::str(es.size()) + " edges", 6, perms, [&] { auto h = g.copy(); h.permutate(); return txt(h, n, true); });
		std::set<std::string> orders; std::vector<int> o(es.size()); std::iota(o.begin(), o.end(), 0); do { std::string t; for (int k : o) t += mc::str(es[k].first) + ">" + mc::str(es[k].second) + ":" + mc::str(5 + k) + " "; orders.insert(t); } while (std::next_permutation(o.begin(), o.end()));
		law("permutateEdges", "permutateEdges() of a directed graph with " + mc::str(es.size()) + " edges", 6, orders, [&] { auto h = g.copy(); h.permutateEdges(); auto t = txt(h, n, true), u = txt(g, n, true); return t == u ? order(h) : "changes the graph to " + t; });
		// undirected: every order and every orientation
		Graph<Integer> u(n); x = 5; for (auto [a, b] : es) u.addEdge(a, b, x++); std::set<std::string> uo; std::iota(o.begin(), o.end(), 0); do { for (int m = 0; m < 1 << es.size(); m++) { std::string t; for (size_t j = 0; j < o.size(); j++) { int k = o[j]; t += (m >> j & 1 ? mc::str(es[k].second) + ">" + mc::str(es[k].first) : mc::str(es[k].first) + ">" + mc::str(es[k].second)) + ":" + mc::str(5 + k) + " "; } uo.insert(t); } } while (std::next_permutation(o.begin(), o.end()));
		law("permutateEdges", "permutateEdges() of an undirected graph with " + mc::str(es.size()) + " edges", 12, uo, [&] { auto h = u.copy(); h.permutateEdges(); auto t = txt(h, n, true), w = txt(u, n, true); return t == w ? order(h) : "changes the graph to " + t; }, false);
		// subgraphs with m edges
		for (Integer m = 0; m <= (Integer)es.size() + 2; m++) { std::set<std::string> want; for (int k = 0; k < 1 << es.size(); k++) if (__builtin_popcount(k) == std::min<Integer>(m, es.size())) { std::string t; std::map<EP, Integer> q; for (size_t j = 0; j < es.size(); j++) if (k >> j & 1) q[es[j]] = 5 + j; for (auto& [e, d] : q) t += mc::str(e.first) + "-" + mc::str(e.second) + ":" + mc::str(d) + " "; want.insert("[" + t + "]"); } law("subgraph", "subgraph(" + mc::str(m) + ") of " + mc::str(es.size()) + " edges", 6, want, [&] { return txt(g.subgraph(m), n, true); }); } no("subgraph", "subgraph(-1)", [&] { g.subgraph(-1); }); });
	mc::sample("randomTree(4): each of the 16 labelled trees for exactly 1/16 of all engine choices"); mc::sample("randomGraph(degrees [1,1,1]) is refused");
	return mc::finish();
}
