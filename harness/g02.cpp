// G02: derived graphs vs. their definitions for every small graph
#include "g_ref.h"
template<class E, bool DIR> using GT = std::conditional_t<DIR, DiGraph<E>, Graph<E>>;
static thread_local const std::vector<EP>*preset = nullptr, *presetA = nullptr, *presetB = nullptr; // edge list of a large graph, instead of a bit mask
template<class E, bool DIR> static GT<E, DIR> make(Integer lo, Integer n, u64 mask, int order, Ref& r) {
	GT<E, DIR> g(lo, lo + n); r = Ref{DIR, lo, n, {}}; std::vector<EP> es; int k = 0; if (preset) es = *preset;
	else for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) if (DIR ? a != b : a < b) if (mask >> k++ & 1) es.push_back(!DIR && (order & 1) && (k % 2) ? EP{b, a} : EP{a, b});
	if (order & 2) std::reverse(es.begin(), es.end()); Integer d = 1;
	for (auto [a, b] : es) { g.addEdge(a + lo, b + lo, Dat<E>::mk(d)); r.e[r.key(a + lo, b + lo)] = std::is_same_v<E, NoData> ? 0 : d; d++; } return g;
}
static u64 pairs(bool dir, Integer n) { return dir ? n * (n - 1) : n * (n - 1) / 2; }
// structure must equal want (edge data only when data is set); queries must agree with the edge list
template<class E, bool DIR> static std::string isImpl(const GT<E, DIR>& g, const Ref& want, bool data) {
	Ref r; auto s = readBack(g, r); if (!s.empty()) return s; Ref a = r, b = want; if (!data) { for (auto& x : a.e) x.second = 0; for (auto& x : b.e) x.second = 0; } if (!(a == b)) return "is " + a.str() + " instead of " + b.str(); return queries(g, r);
}
template<class E> static std::string is(const Graph<E>& g, const Ref& want, bool data) { return isImpl<E, false>(g, want, data); }
template<class E> static std::string is(const DiGraph<E>& g, const Ref& want, bool data) { return isImpl<E, true>(g, want, data); }
static void bad(const char* op, const std::string& what, const std::string& s) { if (!s.empty()) mc::violation(std::string(op) + ":" + s.substr(0, 12), what + " " + op + " " + s); mc::trace(); mc::step(); }
template<class E, bool DIR> static void unary(Integer lo, Integer n, u64 mask, int order) {
	Ref r; auto G = make<E, DIR>(lo, n, mask, order, r); const auto& g = G; std::string w = r.str(); mc::current("unary", w); mc::state(r.hash()); if (!r.e.empty()) mc::nontrivial(); Ref empty{DIR, lo, n, {}}; Integer hi = lo + n;
	{ Ref c = empty; for (Integer a = lo; a < hi; a++) for (Integer b = lo; b < hi; b++) if (a != b && !r.has(a, b)) c.e[c.key(a, b)] = 0; auto h = g.complement(); bad("complement", w, is(h, c, false)); bad("complement twice", w, is(h.complement(), r, false)); }
	std::vector<std::vector<int>> D(n, std::vector<int>(n, 1000)); for (Integer a = 0; a < n; a++) { D[a][a] = 0; for (Integer b = 0; b < n; b++) if (r.has(a + lo, b + lo)) D[a][b] = 1; } for (Integer k = 0; k < n; k++) for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) D[a][b] = std::min(D[a][b], D[a][k] + D[k][b]);
	auto pw = [&](Integer k) { Ref p = empty; for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) if (a != b && D[a][b] <= k) p.e[p.key(a + lo, b + lo)] = 0; return p; };
	for (Integer k = 0; k <= n + 1; k++) if (n < 12 || k < 4 || k > n - 3 || (k & (k - 1)) == 0 || ((k - 1) & (k - 2)) == 0) bad("power", w + " k=" + mc::str(k), is(g.power(k), pw(k), false)); bad("power", w + " k=10^18", is(g.power(1000000000000000000), pw(900), false)); bad("transitiveClosure", w, is(g.transitiveClosure(), pw(900), false));
	{ auto h = g.lineGraph(); std::vector<EP> es; for (Integer i = 0; i < g.edgeCount(); i++) { auto e = g.getEdgeById(i); es.push_back({e.from, e.to}); } Ref l{DIR, 0, (Integer)es.size(), {}}; for (size_t i = 0; i < es.size(); i++) for (size_t j = 0; j < es.size(); j++) if (i != j) { bool c = DIR ? es[i].second == es[j].first : (es[i].first == es[j].first || es[i].first == es[j].second || es[i].second == es[j].first || es[i].second == es[j].second); if (c) l.e[l.key(i, j)] = 0; } bad("lineGraph", w, is(h, l, false)); }
	if constexpr (DIR) {
		Ref u{false, lo, n, {}}; for (auto& [k, d] : r.e) u.e[u.key(k.first, k.second)] = d; auto h = g.undirected(); bad("undirected", w, is(h, u, false)); { Ref x; readBack(h, x); for (auto& [k, d] : x.e) { bool ok = (r.has(k.first, k.second) && r.e[k] == d) || (r.has(k.second, k.first) && r.e[{k.second, k.first}] == d); if (!ok) bad("undirected", w, "data of no original edge"); } }
		Ref v{true, lo, n, {}}; for (auto& [k, d] : r.e) v.e[{k.second, k.first}] = d; auto c = g.copy(); auto& ret = c.reverse(); bad("reverse", w, is(c, v, true)); if (&ret != &c) bad("reverse", w, "does not return the graph itself"); c.reverse(); bad("reverse twice", w, is(c, r, true));
	} else {
		Ref d{true, lo, n, {}}; for (auto& [k, x] : r.e) d.e[k] = d.e[{k.second, k.first}] = x; bad("directed", w, is(g.directed(), d, true));
		for (int p = 0; p < 6; p++) { auto pr = [p](Integer a, Integer b) { return p == 0 ? a < b : p == 1 ? a > b : p == 2 ? false : p == 3 ? (a + 2 * b) % 3 == 0 : p == 4 ? true : a % 2 == 0; }; Ref f{true, lo, n, {}}; for (auto& [k, x] : r.e) { if (pr(k.first, k.second)) f.e[k] = x; if (pr(k.second, k.first)) f.e[{k.second, k.first}] = x; } bad("directed(pred)", w + " pred " + mc::str(p), is(g.directed([pr](Integer a, Integer b) { return pr(a, b); }), f, true));
			Ref f3{true, lo, n, {}}; auto pd = [&](Integer a, Integer b, Integer x) { return pr(a, b) == (x % 2 == 0); }; for (auto& [k, x] : r.e) { if (pd(k.first, k.second, x)) f3.e[k] = x; if (pd(k.second, k.first, x)) f3.e[{k.second, k.first}] = x; } bad("directed(pred with data)", w + " pred " + mc::str(p), is(g.directed([pr](Integer a, Integer b, const E& e) { return pr(a, b) == (Dat<E>::of(e) % 2 == 0); }), f3, true)); }
	}
	bad("operand", w, is(g, r, true));
}
// products: the pair (a,b) is numbered b*n+a or a*m+b
template<class E, bool DIR> static void product(Integer lo1, Integer n, u64 m1, Integer lo2, Integer m, u64 m2) {
	Ref r1, r2; if (presetB) preset = presetA; auto A = make<E, DIR>(lo1, n, m1, 0, r1); if (presetB) preset = presetB; auto B = make<E, DIR>(lo2, m, m2, 2, r2); preset = nullptr; const auto &a = A, &b = B; std::string w = r1.str() + " x " + r2.str(); mc::current("product", w); mc::state(mc::comb(r1.hash(), r2.hash())); if (!r1.e.empty() && !r2.e.empty()) mc::nontrivial();
	auto ref = [&](int kind, bool other) { Ref p{DIR, 0, n * m, {}}; auto id = [&](Integer x, Integer y) { return other ? x * m + y : y * n + x; };
		for (Integer x = 0; x < n; x++) for (Integer y = 0; y < m; y++) for (Integer X = 0; X < n; X++) for (Integer Y = 0; Y < m; Y++) { bool e1 = r1.has(x + lo1, X + lo1), e2 = r2.has(y + lo2, Y + lo2); bool c = (kind & 1 && ((x == X && e2) || (e1 && y == Y))) || (kind & 2 && e1 && e2); if (c) p.e[p.key(id(x, y), id(X, Y))] = 0; } return p; };
	auto chk = [&](const char* nm, const auto& g, int kind) { auto s = is(g, ref(kind, false), false), t = is(g, ref(kind, true), false); bad(nm, w, s.empty() ? s : t.empty() ? t : s); };
	chk("cartesian", a.cartesian(b), 1); if constexpr (!DIR) { chk("product", a.product(b), 2); chk("strongProduct", a.strongProduct(b), 3); }
	bad("operand", w, is(a, r1, true)); bad("operand", w, is(b, r2, true));
}
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	struct J { bool dir; int data; Integer lo, n; u64 from, to; int order; }; std::vector<J> js;
	for (int dir = 0; dir < 2; dir++) for (int data = 0; data < 2; data++) for (Integer lo : {0ll, 1ll, -2ll}) for (Integer n = 0; n <= (dir ? 4 : T ? 6 : 5); n++) for (int o = 0; o < 4; o++) { u64 tot = 1ull << pairs(dir, n), c = std::max<u64>(64, tot / 32); for (u64 f = 0; f < tot; f += c) js.push_back({(bool)dir, data, lo, n, f, std::min(tot, f + c), o}); }
	if (T) for (u64 f = 0; f < 1 << 20; f += 4096) js.push_back({true, 0, 1, 5, f, f + 4096, 0});
	mc::parallel(js.size(), [&](u64 i) { auto& j = js[i]; for (u64 m = j.from; m < j.to; m++) { if (j.dir) { if (j.data) unary<Integer, true>(j.lo, j.n, m, j.order); else unary<NoData, true>(j.lo, j.n, m, j.order); } else { if (j.data) unary<Integer, false>(j.lo, j.n, m, j.order); else unary<NoData, false>(j.lo, j.n, m, j.order); } } });
	struct K { bool dir; Integer n, m, lo1, lo2; u64 m1; }; std::vector<K> ks;
	for (int dir = 0; dir < 2; dir++) for (Integer n = 0; n <= (dir ? 3 : 4); n++) for (Integer m = 0; m <= (dir ? 3 : 4); m++) { if (n == 4 && m == 4 && !T) continue; for (auto [l1, l2] : std::vector<EP>{{0, 0}, {1, -1}, {-3, 2}}) { if (n + m > 5 && l1 == -3) continue; for (u64 m1 = 0; m1 < 1ull << pairs(dir, n); m1++) ks.push_back({(bool)dir, n, m, l1, l2, m1}); } }
	mc::parallel(ks.size(), [&](u64 i) { auto& k = ks[i]; for (u64 m2 = 0; m2 < 1ull << pairs(k.dir, k.m); m2++) { if (k.dir) product<NoData, true>(k.lo1, k.n, k.m1, k.lo2, k.m, m2); else { product<NoData, false>(k.lo1, k.n, k.m1, k.lo2, k.m, m2); if (k.n <= 2) product<Integer, false>(k.lo1, k.n, k.m1, k.lo2, k.m, m2); } } });
	// large graphs of every shape: long distances, many neighbours, many components, other numberings
	struct Big { int shape, num; Integer lo, n; bool dir; }; std::vector<Big> bs; for (int sh = 0; sh < 7; sh++) for (int nu = 0; nu < 3; nu++) for (auto [lo, n] : std::vector<EP>{{0, 40}, {-7, 131}, {1000000000000, 70}, {5, 260}}) for (int d = 0; d < 2; d++) { if (n > 200 && (nu == 1 || (sh > 1 && !T))) continue; bs.push_back({sh, nu, lo, n, d == 1}); }
	std::sort(bs.begin(), bs.end(), [](const Big& a, const Big& b) { return a.n > b.n; });
	auto shape = [](int sh, int nu, Integer n) { std::vector<EP> es; auto q = [nu, n](Integer x) { return nu == 0 ? x : nu == 1 ? n - 1 - x : (x * 17 + 3) % n; }; while (nu == 2 && std::gcd(n, Integer(17)) > 1) return es;
		if (sh == 0) for (Integer i = 0; i + 1 < n; i++) es.push_back({q(i), q(i + 1)}); if (sh == 1) for (Integer i = 1; i < n; i++) i % 2 ? es.push_back({q(0), q(i)}) : es.push_back({q(i), q(0)}); if (sh == 2) for (Integer i = 0; i < n; i++) es.push_back({q(i), q((i + 1) % n)});
		if (sh == 3) for (Integer i = 0; i < n; i++) { Integer j = mc::mix(i * 31 + n) % n; if (i != j && (i < j || (Integer)(mc::mix(j * 31 + n) % n) != i)) es.push_back({q(i), q(j)}); } if (sh == 4) for (Integer i = 0; i < std::min<Integer>(n, 70); i++) for (Integer j = 0; j < i; j++) if (mc::mix(i * 1000 + j) % 8 == 0) (i + j) % 3 ? es.push_back({q(i), q(j)}) : es.push_back({q(j), q(i)});
		if (sh == 5) for (Integer i = 0; i + 3 <= n; i += 3) es.push_back({q(i), q(i + 1)}), es.push_back({q(i + 1), q(i + 2)}), es.push_back({q(i + 2), q(i)}); if (sh == 6) for (Integer i = 1; i < n; i++) mc::mix(i + nu) % 2 ? es.push_back({q((i - 1) / 100), q(i)}) : es.push_back({q(i), q((i - 1) / 100)}); return es; };
	mc::parallel(bs.size(), [&](u64 i) { auto& b = bs[i]; auto es = shape(b.shape, b.num, b.n); preset = &es; if (b.dir) unary<Integer, true>(b.lo, b.n, 0, b.num); else unary<Integer, false>(b.lo, b.n, 0, b.num); preset = nullptr; });
	mc::parallel(72, [&](u64 i) { Integer n = std::vector<Integer>{21, 8, 33}[i % 3], m = std::vector<Integer>{5, 19, 12}[i / 3 % 3]; auto a = shape(i / 9 % 4, 2, n), b = shape((i / 9 * 3 + 1) % 5, 0, m); presetA = &a; presetB = &b; if (i >= 36) product<NoData, true>(-3, n, 0, 7, m, 0); else product<NoData, false>(-3, n, 0, 7, m, 0); presetA = presetB = nullptr; });
	// products with tens of thousands of vertices, edges by edge
	mc::parallel(12, [&](u64 i) { auto [n, m] = std::vector<EP>{{200, 210}, {3, 30000}, {40000, 2}}[i % 3]; Integer lo1 = i / 3 % 2 ? -9 : 0, lo2 = i / 3 % 2 ? 4 : 0; bool dir = i >= 6; std::string w = "paths of " + mc::str(n) + " and " + mc::str(m) + " vertices"; mc::current("large-product", w); mc::state(mc::comb(i, 4711));
		auto run = [&](auto tag) { using GG = decltype(tag); constexpr bool DIR = !std::is_same_v<GG, Graph<NoData>>; GG a(lo1, lo1 + n), b(lo2, lo2 + m); for (Integer k = 0; k + 1 < n; k++) a.addEdge(lo1 + k, lo1 + k + 1); for (Integer k = 0; k + 1 < m; k++) b.addEdge(lo2 + k + 1, lo2 + k);
			auto cmp = [&](const char* nm, const GG& g, int kind) { mc::step(); mc::trace(); std::string s = "x"; for (int other = 0; other < 2 && !s.empty(); other++) { std::set<EP> want; auto id = [&](Integer x, Integer y) { return other ? x * m + y : y * n + x; }; auto put = [&](Integer u, Integer v) { if (!DIR && u > v) std::swap(u, v); want.insert({u, v}); };
					for (Integer x = 0; x < n; x++) for (Integer y = 0; y < m; y++) { if (kind & 1) { if (x + 1 < n) put(id(x, y), id(x + 1, y)); if (y + 1 < m) put(id(x, y + 1), id(x, y)); } if (kind & 2 && x + 1 < n && y + 1 < m) { put(id(x, y), id(x + 1, y + 1)); put(id(x, y + 1), id(x + 1, y)); } }
					s = ""; if (g.getMinId() != 0 || g.nodeCount() != n * m || g.edgeCount() != (Integer)want.size()) s = "has " + mc::str(g.nodeCount()) + " vertices and " + mc::str(g.edgeCount()) + " edges"; else { std::set<EP> got; for (auto e : g.getEdges()) { EP k{e.from, e.to}; if (!DIR && k.first > k.second) std::swap(k.first, k.second); got.insert(k); } if (got != want) s = "has other edges"; size_t deg = 0; for (auto d : g.getDegrees()) deg += d; if (deg != want.size() * (DIR ? 1 : 2)) s = "has wrong degrees"; } }
				if (!s.empty()) mc::violation(std::string(nm) + ":large", w + " " + nm + " " + s); };
			cmp("cartesian", a.cartesian(b), 1); if constexpr (!DIR) { cmp("product", a.product(b), 2); cmp("strongProduct", a.strongProduct(b), 3); } }; if (dir) run(DiGraph<NoData>(0)); else run(Graph<NoData>(0)); });
	mc::sample("power(2) of 0-1-2 has each of its 3 edges once"); mc::sample("lineGraph of 0>1, 1>0 is 0>1, 1>0");
	return mc::finish();
}
