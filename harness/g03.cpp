// G03: named graph families vs. independent definitions
#include "g_ref.h"
#include <climits>
template<class E, bool DIR> using GT = std::conditional_t<DIR, DiGraph<E>, Graph<E>>;
template<class E, bool DIR> static void isImpl(const char* fam, const std::string& args, const GT<E, DIR>& g, Integer n, const std::vector<EP>& es) {
	Ref want{DIR, 0, n, {}}; for (auto [a, b] : es) want.e[want.key(a, b)] = 0; mc::trace(); mc::step(); mc::state(mc::comb(mc::hashStr(std::string(fam) + args), DIR)); if (es.size()) mc::nontrivial();
	std::string w = std::string(DIR ? "directed " : "") + fam + "(" + args + ")"; Ref r; auto s = readBack(g, r); if (s.empty() && !(r == want)) s = "is " + r.str() + " instead of " + want.str(); if (s.empty() && n <= 130) s = queries(g, r); if (!s.empty()) mc::violation(std::string(fam) + (DIR ? ":directed" : ":undirected"), w + " " + s);
}
template<class E> static void is(const char* fam, const std::string& args, const Graph<E>& g, Integer n, const std::vector<EP>& es) { return isImpl<E, false>(fam, args, g, n, es); }
template<class E> static void is(const char* fam, const std::string& args, const DiGraph<E>& g, Integer n, const std::vector<EP>& es) { return isImpl<E, true>(fam, args, g, n, es); }
using V = std::vector<EP>;
template<class E> static void plain(int k, bool T) { // k selects the family and size
	int lim = T ? 160 : 90; Integer n = k; auto S = [](Integer x) { return mc::str(x); }; 
	{ is("independent", S(n), independent<E>(n), n, {}); is("independent", S(n), independent<E, true>(n), n, {}); }
	{ V v; for (Integer i = 0; i < n; i++) for (Integer j = i + 1; j < n; j++) v.push_back({i, j}); is("clique", S(n), clique<E>(n), n, v); is("clique", S(n), clique<E, true>(n), n, v); }
	for (Integer m = 0; m <= std::min(lim, 25); m++) { V v; for (Integer i = 0; i < n; i++) for (Integer j = 0; j < m; j++) v.push_back({i, n + j}); std::string a = S(n) + "," + S(m); is("bipartite", a, bipartite<E>(n, m), n + m, v); is("bipartite", a, bipartite<E, true>(n, m), n + m, v); }
	{ V v; for (Integer i = 0; i < n; i++) v.push_back({i, i + 1}); is("path", S(n), path<E>(n), n + 1, v); is("path", S(n), path<E, true>(n), n + 1, v); }
	if (n >= 2) { V v; for (Integer i = 0; i < n; i++) v.push_back({i, (i + 1) % n}); is("cycle", S(n), cycle<E>(n), n, v); is("cycle", S(n), cycle<E, true>(n), n, v); }
	{ V v; for (Integer i = 1; i <= n; i++) v.push_back({0, i}); is("star", S(n), star<E>(n), n + 1, v); is("star", S(n), star<E, true>(n), n + 1, v); if (n >= 3) { for (Integer i = 1; i <= n; i++) v.push_back({i, i % n + 1}); is("wheel", S(n), wheel<E>(n), n + 1, v); } }
	for (Integer m = 0; m <= 20; m++) { std::string a = S(n) + "," + S(m); V v; for (Integer i = 0; i < n; i++) v.push_back({i, i + 1}); { V u = v; for (Integer i = 1; i <= m; i++) u.push_back({n, n + i}); is("broom", a, broom<E>(n, m), n + m + 1, u); } if (m >= 1) { V u = v; for (Integer i = n; i < n + m; i++) for (Integer j = i + 1; j < n + m; j++) u.push_back({i, j}); is("lolly", a, lolly<E>(n, m), n + m, u); } }
	for (Integer m = 1; m <= 12 && n >= 1; m++) { V v; for (Integer y = 0; y < m; y++) for (Integer x = 0; x < n; x++) { if (x + 1 < n) v.push_back({y * n + x, y * n + x + 1}); if (y + 1 < m) v.push_back({y * n + x, (y + 1) * n + x}); } is("grid", S(n) + "," + S(m), grid<E>(n, m), n * m, v); if (m == n) is("grid", S(n), grid<E>(n), n * n, v); }
	if (n <= (T ? 12 : 9)) { Integer N = 1ll << n; V v, w; for (Integer a = 0; a < N; a++) for (Integer b = 0; b < n; b++) { Integer c = a ^ (1ll << b); v.push_back({a, c}); if (a > c) w.push_back({a, c}); } is("hypercube", S(n), hypercube<E>(n), N, v); is("booleanLattice", S(n), booleanLattice<E>(n), N, w); is("booleanLattice", S(n), booleanLattice<E, true>(n), N, w); }
	for (Integer N : {n, n + 41, n * 7, n * 31 + 500}) { V v; for (Integer i = 0; i < N; i++) for (Integer j = 0; j < 62; j++) if (j < i && (i >> j & 1)) v.push_back({j, i}); is("rado", S(N), rado<E>(N), N, v); is("rado", S(N), rado<E, true>(N), N, v); }
	for (Integer c = 0; c <= 6; c++) { double est = 1; for (int i = 0; i < n; i++) est = est * c + 1; if (est > 6000 || n > 60) continue; V v; Integer nx = 0; std::function<Integer(Integer)> rec = [&](Integer l) { Integer me = nx++; if (l > 0) for (Integer i = 0; i < c; i++) { Integer ch = rec(l - 1); v.push_back({me, ch}); } return me; }; rec(n); std::string a = S(n) + "," + S(c); is("completeTree", a, completeTree<E>(n, c), nx, v); is("completeTree", a, completeTree<E, true>(n, c), nx, v); if (c == 2) { is("completeTree", S(n), completeTree<E>(n), nx, v); is("completeTree", S(n), completeTree<E, true>(n), nx, v); } }
}
template<class E> static void large(int k) { // the same families far beyond the small sizes
	auto S = [](Integer x) { return mc::str(x); };
	for (Integer n : {256, 1000, 70000}) {
		if (n == 70000 && k % 5 > 2) continue;
		V p; for (Integer i = 0; i < n; i++) p.push_back({i, i + 1});
		if (k == 0) { is("path", S(n), path<E>(n), n + 1, p); is("path", S(n), path<E, true>(n), n + 1, p); }
		if (k == 1) { V v; for (Integer i = 0; i < n; i++) v.push_back({i, (i + 1) % n}); is("cycle", S(n), cycle<E>(n), n, v); is("cycle", S(n), cycle<E, true>(n), n, v); }
		if (k == 2) { V v; for (Integer i = 1; i <= n; i++) v.push_back({0, i}); is("star", S(n), star<E>(n), n + 1, v); is("star", S(n), star<E, true>(n), n + 1, v); for (Integer i = 1; i <= n; i++) v.push_back({i, i % n + 1}); is("wheel", S(n), wheel<E>(n), n + 1, v); }
		if (k == 3) { V v = p; for (Integer i = 1; i <= 300; i++) v.push_back({n, n + i}); is("broom", S(n) + ",300", broom<E>(n, 300), n + 301, v); }
		if (k == 4) { V v; for (Integer i = 0; i < 40; i++) v.push_back({i, i + 1}); for (Integer i = 40; i < 340; i++) for (Integer j = i + 1; j < 340; j++) v.push_back({i, j}); is("lolly", "40,300", lolly<E>(40, 300), 340, v); break; }
	}
	if (k == 5) for (auto [n, m] : V{{300, 200}, {200, 300}, {1, 5000}, {5000, 1}, {70000, 2}}) { V v; for (Integer i = 0; i < n; i++) for (Integer j = 0; j < m; j++) v.push_back({i, n + j}); is("bipartite", S(n) + "," + S(m), bipartite<E>(n, m), n + m, v); is("bipartite", S(n) + "," + S(m), bipartite<E, true>(n, m), n + m, v); }
	if (k == 6) { V v; Integer n = 300; for (Integer i = 0; i < n; i++) for (Integer j = i + 1; j < n; j++) v.push_back({i, j}); is("clique", S(n), clique<E>(n), n, v); is("clique", S(n), clique<E, true>(n), n, v); is("independent", "100000", independent<E>(100000), 100000, {}); }
	if (k == 7) for (auto [n, m] : V{{1, 1000}, {1000, 1}, {300, 200}, {70, 257}, {16, 4097}}) { V v; for (Integer y = 0; y < m; y++) for (Integer x = 0; x < n; x++) { if (x + 1 < n) v.push_back({y * n + x, y * n + x + 1}); if (y + 1 < m) v.push_back({y * n + x, (y + 1) * n + x}); } is("grid", S(n) + "," + S(m), grid<E>(n, m), n * m, v); }
	if (k == 8) for (Integer n : {12, 13}) { Integer N = 1ll << n; V v, w; for (Integer a = 0; a < N; a++) for (Integer b = 0; b < n; b++) { Integer c = a ^ (1ll << b); v.push_back({a, c}); if (a > c) w.push_back({a, c}); } is("hypercube", S(n), hypercube<E>(n), N, v); is("booleanLattice", S(n), booleanLattice<E>(n), N, w); is("booleanLattice", S(n), booleanLattice<E, true>(n), N, w); }
	if (k == 9) for (Integer N : {1025, 8193, 70000}) { V v; for (Integer i = 0; i < N; i++) for (Integer j = 0; j < 62; j++) if (j < i && (i >> j & 1)) v.push_back({j, i}); is("rado", S(N), rado<E>(N), N, v); is("rado", S(N), rado<E, true>(N), N, v); }
	if (k == 10) for (auto [l, c] : V{{14, 2}, {3, 30}, {2, 200}, {1, 70000}, {300, 1}, {8, 3}}) { V v; Integer nx = 0; std::function<Integer(Integer)> rec = [&, c = c](Integer h) { Integer me = nx++; if (h > 0) for (Integer i = 0; i < c; i++) { Integer ch = rec(h - 1); v.push_back({me, ch}); } return me; }; rec(l); std::string a = S(l) + "," + S(c); is("completeTree", a, completeTree<E>(l, c), nx, v); is("completeTree", a, completeTree<E, true>(l, c), nx, v); }
}
// flow networks
struct Net {
	struct A { int to; Integer cap, cost; int rev; }; std::vector<std::vector<A>> g; Net(int n) : g(n) {} void add(int a, int b, Integer c, Integer w) { g[a].push_back({b, c, w, (int)g[b].size()}); g[b].push_back({a, 0, -w, (int)g[a].size() - 1}); }
	std::pair<__int128, Integer> ssp(int s, int t) { __int128 fl = 0; Integer it = 0; const Integer INF = LLONG_MAX / 4; while (true) { std::vector<Integer> d(g.size(), INF); std::vector<std::pair<int, int>> p(g.size()); d[s] = 0; bool ch = true; while (ch) { ch = false; for (int u = 0; u < (int)g.size(); u++) if (d[u] < INF) for (int k = 0; k < (int)g[u].size(); k++) { auto& e = g[u][k]; if (e.cap > 0 && d[u] + e.cost < d[e.to]) { d[e.to] = d[u] + e.cost; p[e.to] = {u, k}; ch = true; } } } if (d[t] >= INF) return {fl, it}; Integer b = LLONG_MAX; for (int v = t; v != s; v = p[v].first) b = std::min(b, g[p[v].first][p[v].second].cap); for (int v = t; v != s; v = p[v].first) { auto& e = g[p[v].first][p[v].second]; e.cap -= b; g[e.to][e.rev].cap += b; } fl += b; it++; } }
	__int128 maxflow(int s, int t) { __int128 fl = 0; while (true) { std::vector<std::pair<int, int>> p(g.size(), {-1, 0}); std::vector<int> q{s}; p[s] = {s, 0}; for (size_t i = 0; i < q.size() && p[t].first < 0; i++) for (int k = 0; k < (int)g[q[i]].size(); k++) { auto& e = g[q[i]][k]; if (e.cap > 0 && p[e.to].first < 0) { p[e.to] = {q[i], k}; q.push_back(e.to); } } if (p[t].first < 0) return fl; Integer b = LLONG_MAX; for (int v = t; v != s; v = p[v].first) b = std::min(b, g[p[v].first][p[v].second].cap); for (int v = t; v != s; v = p[v].first) { auto& e = g[p[v].first][p[v].second]; e.cap -= b; g[e.to][e.rev].cap += b; } fl += b; } }
	Integer dfs(int u, int t, Integer f, std::vector<char>& v) { if (u == t) return f; v[u] = 1; for (auto& e : g[u]) if (e.cap > 0 && !v[e.to]) { Integer r = dfs(e.to, t, std::min(f, e.cap), v); if (r) { e.cap -= r; g[e.to][e.rev].cap += r; return r; } } return 0; }
	Integer ford(int s, int t) { Integer it = 0; while (true) { std::vector<char> v(g.size()); if (!dfs(s, t, LLONG_MAX, v)) return it; it++; } }
};
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough; int lim = T ? 160 : 90;
	mc::parallel(2 * (lim + 1), [&](u64 i) { int k = i / 2; mc::current("family", "families of size " + mc::str(k)); if (i & 1) plain<Integer>(k, T); else plain<NoData>(k, T); });
	mc::parallel(22, [&](u64 i) { mc::current("family", "large family " + mc::str(i / 2)); if (i & 1) large<Integer>(i / 2); else large<NoData>(i / 2); });
	mc::parallel(63, [&](u64 i) { Integer n = i + 1; mc::current("ffWorstcase", "ffWorstcase(" + mc::str(n) + ")"); mc::state(mc::comb(n, 1)); auto g = ffWorstcase(n); Ref r; std::string w = "ffWorstcase(" + mc::str(n) + ") ", s = readBack(g, r); if (s.empty() && (r.lo != 0 || r.n != 2 * n)) s = "does not have 2n vertices"; if (s.empty()) { Net a(2 * n), b(2 * n); for (auto e : g.getEdges()) { if (*e <= 0) s = "has a capacity that is not positive"; a.add(e.from, e.to, *e, 0); b.add(e.from, e.to, *e, 0); } if (a.maxflow(0, 2 * n - 1) != (__int128)1 << (n - 1)) s = "does not have 2^(n-1) flow"; else if (n <= (T ? 16 : 13)) { Integer it = b.ford(0, 2 * n - 1); if (it != 1ll << (n - 1)) s = "takes only " + mc::str(it) + " augmentations with dfs in edge order"; } } if (!s.empty()) mc::violation("ffWorstcase", w + s); mc::trace(); mc::step(); });
	mc::parallel(60, [&](u64 i) { Integer n = i + 1; mc::current("mcmfWorstcase", "mcmfWorstcase(" + mc::str(n) + ")"); mc::state(mc::comb(n, 2)); auto g = mcmfWorstcase(n); std::string s; if (g.nodeCount() != 2 * n + 2 || g.getMinId() != 0) s = "does not have 2n+2 vertices"; else { Net a(2 * n + 2), b(2 * n + 2); for (auto e : g.getEdges()) { auto [cap, cost] = *e; if (cap <= 0 || cost < 0) s = "has a bad capacity or cost"; Integer fi = e.from, ti = e.to - n; if (fi >= 1 && fi <= n && ti >= 1 && ti <= n && cost != (fi == ti ? 0 : (1ll << (std::max(fi, ti) - 1)) - 1)) s = "has cost " + mc::str(cost) + " from " + mc::str(e.from) + " to " + mc::str(e.to); a.add(e.from, e.to, cap, cost); b.add(e.from, e.to, cap, cost); } __int128 f = a.maxflow(0, 2 * n + 1); __int128 want = n == 1 ? 1 : ((__int128)1 << n) + ((__int128)1 << (n - 2)) - 2; if (f != want) s = "does not have 2^n+2^(n-2)-2 flow"; else if (n >= 2 && n <= (T ? 10 : 8)) { auto [fl, it] = b.ssp(0, 2 * n + 1); if (fl != f || it != f) s = "takes only " + mc::str(it) + " shortest path augmentations"; } } if (!s.empty()) mc::violation("mcmfWorstcase", "mcmfWorstcase(" + mc::str(n) + ") " + s); mc::trace(); mc::step(); });
	// every pruefer code
	auto prue = [](const std::vector<Integer>& code, bool data) { int n = code.size() + 2; std::string a; for (auto y : code) if (a.size() < 400) a += mc::str(y) + " "; mc::current("pruefer", a); V v; std::vector<int> cnt(n, 1); for (auto y : code) cnt[y]++; for (auto y : code) for (int z = 0; z < n; z++) if (cnt[z] == 1) { v.push_back({y, z}); cnt[z]--; cnt[y]--; break; } Integer p = -1; for (int z = 0; z < n; z++) if (cnt[z] == 1) { if (p < 0) p = z; else v.push_back({p, z}); } is("pruefer", a, pruefer(code), n, v); if (data) is("pruefer", a, pruefer<Integer>(code), n, v); };
	std::vector<int> len; for (int l = 0; l <= (T ? 6 : 5); l++) for (int f = 0; f < (l ? l + 2 : 1); f++) len.push_back(l * 10 + f);
	mc::parallel(len.size(), [&](u64 i) { int l = len[i] / 10, f = len[i] % 10, n = l + 2; u64 tot = 1; for (int k = 1; k < l; k++) tot *= n; for (u64 c = 0; c < tot; c++) { std::vector<Integer> code; if (l) code.push_back(f); u64 x = c; for (int k = 1; k < l; k++) { code.push_back(x % n); x /= n; }
		prue(code, l < 4); } });
	// long codes of every shape: long paths, stars, hubs at both ends, several hubs
	std::vector<int> ln = {12, 33, 64, 127, 128, 129, 130, 255, 256, 257, 300, 1000}; if (T) for (int x : {2000, 4000}) ln.push_back(x);
	mc::parallel(ln.size() * 10, [&](u64 i) { int l = ln[i / 10], k = i % 10; std::vector<Integer> c; for (int j = 0; j < l; j++) { Integer x = mc::mix(j * 77 + l), n = l + 2; c.push_back(k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? j : k == 3 ? n - 1 - j : k == 4 ? (x & 0xffffff) % n : k == 5 ? (j < l / 2 ? 0 : n - 1) : k == 6 ? (j % 2 ? n / 2 : j) : k == 7 ? j / 7 : k == 8 ? (x & 0xffff) % 3 * (n / 3) : (x & 0xff) < 200 ? n - 5 : (x >> 8 & 0xffffff) % n); } prue(c, k % 3 == 0); });
	mc::parallel(1, [&](u64) { mc::current("refused", "inadmissible sizes"); for (Integer n : {-5ll, -1ll, 0ll, 64ll, 1000ll}) if (!vh::refuses([&] { ffWorstcase(n); })) mc::violation("ffWorstcase:refused", "ffWorstcase(" + mc::str(n) + ") is accepted"); for (Integer n : {-5ll, -1ll, 0ll, 61ll, 1000ll}) if (!vh::refuses([&] { mcmfWorstcase(n); })) mc::violation("mcmfWorstcase:refused", "mcmfWorstcase(" + mc::str(n) + ") is accepted"); for (Integer n : {-1ll, -7ll}) { if (!vh::refuses([&] { independent(n); }) || !vh::refuses([&] { clique(n); })) mc::violation("independent:refused", "a negative number of vertices is accepted"); } mc::step(14); });
	mc::sample("wheel(3) is the clique on 4 vertices"); mc::sample("rado(5): 0-1 1-2 0-3 1-3 2-4");
	return mc::finish();
}
