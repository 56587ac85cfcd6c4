// G05: graph_val.h answers vs. definitions, after every single edge of every edge sequence
#include "vh.h"
#include "graph_val.h"
using E = std::pair<int, int>;
static std::string S(const std::vector<E>& e, int n, Integer off) { std::string r = "n=" + mc::str(n) + " from " + mc::str(off) + ":"; for (size_t i = 0; i < e.size() && i < 25; i++) r += " " + mc::str(e[i].first + off) + "-" + mc::str(e[i].second + off); return r; }
#define BAD(fn) mc::violation(std::string(fn), std::string(fn) + " is wrong for " + S(es, n, off))
struct Ref { int n; std::vector<unsigned> adj, rev; std::vector<int> cmp; bool cyc = false, loop = false, multi = false; };
static int rt(std::vector<int>& p, int x) { while (p[x] != x) x = p[x]; return x; }
template<class G> static void common(const G& g, const std::vector<E>& es, int n, Integer off, const char* nm, const std::vector<std::vector<int>>& cnt, bool dir) {
	std::string p = nm; mc::step(6);
	if ((Integer)g.size() != n || g.nodeCount() != n) BAD(p + "::nodeCount"); if (g.edgeCount() != (Integer)es.size()) BAD(p + "::edgeCount");
	bool loop = false, multi = false; for (int a = 0; a < n; a++) { if (cnt[a][a]) loop = true; for (int b = 0; b < n; b++) { if (cnt[a][b] > 1) multi = true; } }
	auto l = g.hasSelfloop(); if (l.has_value() != loop) BAD(p + "::hasSelfloop"); else if (l && (*l < off || *l >= off + n || !cnt[*l - off][*l - off])) BAD(p + "::hasSelfloop witness");
	auto m = g.hasMultiedge(); if (m.has_value() != multi) BAD(p + "::hasMultiedge"); else if (m && (m->first < off || m->first >= off + n || m->second < off || m->second >= off + n || cnt[m->first - off][m->second - off] < 2)) BAD(p + "::hasMultiedge witness");
	for (int a = 0; a < n; a++) { std::set<Integer> w; for (int b = 0; b < n; b++) { if (cnt[a][b]) w.insert(b + off); if (g.hasEdge(a + off, b + off) != (cnt[a][b] > 0)) BAD(p + "::hasEdge"); } if (std::set<Integer>(g[a + off]) != w) BAD(p + "::operator[]"); }
}
static void undirected(Graph& g, const std::vector<E>& es, int n, Integer off) {
	std::vector<std::vector<int>> cnt(n, std::vector<int>(n)); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; bool cyc = false;
	for (auto [a, b] : es) { cnt[a][b]++; if (a != b) cnt[b][a]++; int x = rt(p, a), y = rt(p, b); if (x == y) cyc = true; else p[x] = y; }
	common(g, es, n, off, "Graph", cnt, false);
	int comp = 0; for (int i = 0; i < n; i++) comp += p[i] == i;
	if (n > 0) { if (g.isConnected() != (comp == 1)) BAD("Graph::isConnected"); if (g.isTree() != (comp == 1 && !cyc)) BAD("Graph::isTree"); }
	if (g.isForest() != !cyc) BAD("Graph::isForest");
	bool bip = false; for (int m = 0; m < (1 << n) && !bip; m++) { bool ok = true; for (auto [a, b] : es) if (((m >> a) & 1) == ((m >> b) & 1)) { ok = false; break; } bip = ok; }
	if (g.isBipartite() != bip) BAD("Graph::isBipartite");
	for (int a = 0; a < n; a++) { int d = 0; for (int b = 0; b < n; b++) { d += cnt[a][b] > 0; if (g.areConnected(a + off, b + off) != (rt(p, a) == rt(p, b))) BAD("Graph::areConnected"); } if (g.degree(a + off) != d) BAD("Graph::degree"); }
	mc::step(8);
}
static void directed(const DiGraph& g, const std::vector<E>& es, int n, Integer off) {
	std::vector<std::vector<int>> cnt(n, std::vector<int>(n)); std::vector<std::vector<char>> R(n, std::vector<char>(n)); for (auto [a, b] : es) cnt[a][b]++, R[a][b] = 1;
	common(g, es, n, off, "DiGraph", cnt, true);
	for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (R[i][k]) for (int j = 0; j < n; j++) if (R[k][j]) R[i][j] = 1;
	bool dag = true; for (int i = 0; i < n; i++) if (R[i][i]) dag = false;
	auto o = g.isDAG(); if (o.has_value() != dag) BAD("DiGraph::isDAG");
	else if (o) { std::vector<int> pos(n, -1); bool ok = (int)o->size() == n; for (size_t i = 0; i < o->size() && ok; i++) { Integer x = (*o)[i] - off; if (x < 0 || x >= n || pos[x] >= 0) ok = false; else pos[x] = i; } if (ok) for (auto [a, b] : es) if (pos[a] >= pos[b]) ok = false; if (!ok) BAD("DiGraph::isDAG order"); }
	int root = -1; if ((int)es.size() == n - 1) for (int r = 0; r < n && root < 0; r++) { bool ok = true; for (int i = 0; i < n; i++) if (i != r && !R[r][i]) ok = false; if (ok) root = r; }
	auto t = g.isTree(); if (t.has_value() != (root >= 0)) BAD("DiGraph::isTree"); else if (t && *t != root + off) BAD("DiGraph::isTree root");
	for (int a = 0; a < n; a++) { std::set<Integer> in; int od = 0; for (int b = 0; b < n; b++) { if (cnt[b][a]) in.insert(b + off); od += cnt[a][b] > 0; if (g.hasReverse(a + off, b + off) != (cnt[b][a] > 0)) BAD("DiGraph::hasReverse"); } if (std::set<Integer>(g.inEdges(a + off)) != in) BAD("DiGraph::inEdges"); if (g.outDegree(a + off) != od) BAD("DiGraph::outDegree"); if (g.inDegree(a + off) != (Integer)in.size()) BAD("DiGraph::inDegree"); }
	mc::step(8);
}
// all sequences: the state after each prefix is checked once
static void grow(const Graph& g, const DiGraph& d, std::vector<E>& es, int n, Integer off, int left) {
	{ Graph u = g; undirected(u, es, n, off); } directed(d, es, n, off); mc::trace(); 
	if (!left) return;
	for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { es.push_back({a, b}); Graph u = g; DiGraph v = d; mc::current("grow", S(es, n, off)); u.addEdge(a + off, b + off); v.addEdge(a + off, b + off); mc::step(2); grow(u, v, es, n, off, left - 1); es.pop_back(); }
}
static void build(const std::vector<E>& es, int n, Integer off, bool dir, bool last) {
	mc::current("build", S(es, n, off)); mc::trace();
	if (dir) { DiGraph d(off, off + n); for (auto [a, b] : es) d.addEdge(a + off, b + off); directed(d, es, n, off); } else { Graph g(off, off + n); for (auto [a, b] : es) g.addEdge(a + off, b + off); undirected(g, es, n, off); }
}
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	struct J { int n, len; Integer off; int a, b; }; std::vector<J> js;
	for (Integer off : {0ll, 1ll, -3ll, 1000000000000ll}) { for (int n = 0; n <= 2; n++) js.push_back({n, T ? 8 : 6, off, -1, -1}); }
	for (int n = 3; n <= 5; n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (Integer off : {0ll, 1ll, -3ll}) js.push_back({n, n == 3 ? (T ? 7 : 6) : n == 4 ? (T ? (off == 1 ? 6 : 5) : (off == 1 ? 5 : 4)) : (T ? (off == 1 ? 5 : 4) : (off == 1 ? 4 : 3)), off, a, b});
	mc::parallel(js.size(), [&](u64 i) { auto& j = js[i]; Graph g(j.off, j.off + j.n); DiGraph d(j.off, j.off + j.n); std::vector<E> es; mc::nontrivial(); mc::state(mc::comb(i, 1)); if (j.a >= 0) { es.push_back({j.a, j.b}); g.addEdge(j.a + j.off, j.b + j.off); d.addEdge(j.a + j.off, j.b + j.off); } grow(g, d, es, j.n, j.off, j.len - (j.a >= 0)); });
	// all simple digraphs on 4 (5) vertices and all simple graphs on 6 (7), edges in three insertion orders
	struct K { int n; bool dir; u64 from, to; }; std::vector<K> ks; auto addk = [&](int n, bool dir) { u64 tot = 1ull << (dir ? n * (n - 1) : n * (n - 1) / 2), c = std::max<u64>(1, tot / 64); for (u64 f = 0; f < tot; f += c) ks.push_back({n, dir, f, std::min(tot, f + c)}); };
	addk(4, true); addk(5, false); addk(6, false); addk(5, true); if (T) addk(7, false);
	mc::parallel(ks.size(), [&](u64 i) { auto& k = ks[i]; std::vector<E> all; for (int a = 0; a < k.n; a++) for (int b = 0; b < k.n; b++) if (a != b && (k.dir || a < b)) all.push_back({a, b});
		for (u64 m = k.from; m < k.to; m++) { if (k.n == 5 && k.dir && !T && (m % 3)) continue; mc::state(mc::comb(m, k.n * 2 + k.dir)); std::vector<E> es; for (size_t e = 0; e < all.size(); e++) if (m >> e & 1) es.push_back(all[e]); build(es, k.n, 1, k.dir, true); std::reverse(es.begin(), es.end()); if (!k.dir) for (size_t e = 0; e < es.size(); e += 2) std::swap(es[e].first, es[e].second); build(es, k.n, -2, k.dir, true); std::vector<E> sh; for (size_t e = 0; e < es.size(); e += 2) sh.push_back(es[e]); for (size_t e = 1; e < es.size(); e += 2) sh.push_back(es[e]); build(sh, k.n, 0, k.dir, true); } });
	// all labelled rooted trees given by parent arrays on up to 6 (7) vertices, in all rotations of the edge order, with one edge reversed or doubled
	std::vector<std::pair<int, u64>> pt; for (int n = 1; n <= (T ? 7 : 6); n++) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= n; for (u64 c = 0; c < tot; c++) pt.push_back({n, c}); }
	mc::parallel((pt.size() + 255) / 256, [&](u64 blk) { for (u64 i = blk * 256; i < std::min<u64>(pt.size(), blk * 256 + 256); i++) { auto [n, c] = pt[i]; std::vector<E> es; u64 x = c; int roots = 0; for (int v = 0; v < n; v++) { int p = x % n; x /= n; if (p == v) roots++; else es.push_back({p, v}); } if (roots > 1) continue; mc::state(mc::comb(c, n + 100)); for (int r = 0; r < std::max<int>(1, es.size()); r++) { build(es, n, r % 2 ? 1 : -n, true, true); if (es.size()) std::rotate(es.begin(), es.begin() + 1, es.end()); } } });
	// union-find: every operation sequence
	std::vector<int> uf; for (int n = 1; n <= 6; n++) for (int a = 0; a < n; a++) uf.push_back(n * 10 + a);
	mc::parallel(uf.size(), [&](u64 i) { int n = uf[i] / 10, a0 = uf[i] % 10; int L = n <= 3 ? (T ? 6 : 5) : n == 4 ? (T ? 5 : 4) : n == 5 ? (T ? 5 : 4) : (T ? 5 : 4);
		std::function<void(const UnionFind&, std::vector<int>, int, std::vector<E>&)> rec = [&](const UnionFind& u, std::vector<int> p, int left, std::vector<E>& es) {
			Integer off = 0; mc::trace(); for (int a = 0; a < n; a++) { Integer f = u.findSet(a); if (f < 0 || f >= n || rt(p, f) != rt(p, a)) BAD("UnionFind::findSet"); for (int b = 0; b < n; b++) { bool w = rt(p, a) == rt(p, b); if (u.connected(a, b) != w || (u.findSet(a) == u.findSet(b)) != w) BAD("UnionFind::connected"); } } mc::step(2 * n * n);
			if (!left) return;
			for (int a = left == L ? a0 : 0; a < (left == L ? a0 + 1 : n); a++) for (int b = 0; b < n; b++) { es.push_back({a, b}); UnionFind v = u; auto q = p; int x = rt(q, a), y = rt(q, b); mc::current("union-find", S(es, n, 0)); bool r = v.unionSets(a, b); mc::step(); if (r != (x != y)) BAD("UnionFind::unionSets"); q[x] = y; rec(v, q, left - 1, es); es.pop_back(); }
		};
		std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k; std::vector<E> es; rec(UnionFind(n), p, L, es); });
	// medium graphs of every shape, in several edge orders, compared after every edge (with every witness at the end and on the way)
	struct M { int n, shape, ord; Integer off; }; std::vector<M> ms; for (int n : {300, 150, 40}) for (int sh = 0; sh < 13; sh++) for (int o = 0; o < 4; o++) for (Integer off : {Integer(0), Integer(1), Integer(-500), Integer(1) << 40}) if (n < 100 || off == 1 || (o + sh) % 4 == off % 3) ms.push_back({n, sh, o, off});
	mc::parallel(ms.size(), [&](u64 ix) { auto [n, sh, ord, off] = ms[ix]; std::vector<E> es; auto H = [&](int x) { return int(mc::mix(u64(x) * 31 + sh) >> 34); }; mc::state(mc::comb(ix, 4242)); mc::nontrivial();
		if (sh == 0) for (int i = 0; i + 1 < n; i++) es.push_back({i, i + 1}); if (sh == 1) for (int i = 1; i < n; i++) es.push_back({0, i}); if (sh == 2) for (int i = 1; i < n; i++) es.push_back({H(i) % i, i}); if (sh == 3) for (int i = 0; i < n; i++) es.push_back({i, (i + 1) % n}); if (sh == 4) for (int i = 0; i < (n | 1) - 2; i++) es.push_back({i, (i + 1) % ((n | 1) - 2)});
		if (sh == 5) for (int i = 0; i < 2 * n; i++) es.push_back({H(i) % n, H(i + 9999) % n}); if (sh == 6) for (int i = 0; i < 2 * n; i++) { int a = H(i) % (n / 2), b = n / 2 + H(i + 777) % (n - n / 2); es.push_back(i % 2 ? E{a, b} : E{b, a}); } if (sh == 7) for (int i = 0; i < 2 * n; i++) { int a = H(i) % n, b = H(i + 555) % n; if (a != b) es.push_back({std::min(a, b), std::max(a, b)}); } if (sh == 8) { for (int i = 1; i < n; i++) es.push_back({(i - 1) / 2, i}); es.push_back({n - 1, n - 1}); } if (sh == 9) for (int i = 1; i < n; i++) es.push_back({i, 0}); if (sh == 10) for (int i = 0; i + 1 < n; i++) es.push_back({i, n - 1}); if (sh == 11) for (int i = 0; i < n; i++) for (int j = std::max(0, n - 3); j < n; j++) if (i < j) es.push_back({i, j}); if (sh == 12) for (int i = 0; i + 1 < n; i++) { es.push_back({i + 1, i}); if (i % 50 == 49) es.push_back({i % 100 == 99 ? i - 40 : i, i % 100 == 99 ? i : i - 40}); }
		if (ord == 1) std::reverse(es.begin(), es.end()); if (ord == 2) std::sort(es.begin(), es.end(), [&](E a, E b) { return mc::mix(a.first * 1000 + a.second) < mc::mix(b.first * 1000 + b.second); }); if (ord == 3) for (size_t i = 0; i < es.size(); i += 2) std::swap(es[i].first, es[i].second); if (ord == 1 && sh < 5) for (auto& e : es) e = {n - 1 - e.first, n - 1 - e.second};
		std::vector<E> all; all.swap(es); Graph g(off, off + n); DiGraph d(off, off + n); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); int comp = n; bool cyc = false; std::map<E, int> uc, dc; std::vector<std::set<int>> adj(n), out(n), in(n); bool loop = false, um = false, dm = false; std::string w = "shape " + mc::str(sh) + " order " + mc::str(ord) + " "; mc::current("medium", w + "n=" + mc::str(n) + " from " + mc::str(off));
		auto bad = [&](const char* f) { mc::violation(std::string(f) + ":medium", std::string(f) + " is wrong for " + w + "after " + mc::str(es.size()) + " edges: " + S(es, n, off)); };
		for (size_t k = 0; k < all.size(); k++) { auto [a, b] = all[k]; es.push_back(all[k]); g.addEdge(a + off, b + off); d.addEdge(a + off, b + off); mc::step(2); int x = rt(p, a), y = rt(p, b); if (x == y) cyc = true; else p[x] = y, comp--; if (a == b) loop = true; if (uc[{std::min(a, b), std::max(a, b)}]++) um = true; if (dc[{a, b}]++) dm = true; adj[a].insert(b); adj[b].insert(a); out[a].insert(b); in[b].insert(a);
			if (g.isForest() == cyc || g.isTree() != (comp == 1 && !cyc) || g.isConnected() != (comp == 1)) return bad("Graph::isTree/isForest/isConnected"); if (g.hasSelfloop().has_value() != loop || d.hasSelfloop().has_value() != loop) return bad("hasSelfloop"); if (g.hasMultiedge().has_value() != um) return bad("Graph::hasMultiedge"); if (d.hasMultiedge().has_value() != dm) return bad("DiGraph::hasMultiedge"); if (g.edgeCount() != (Integer)es.size() || d.edgeCount() != (Integer)es.size()) return bad("edgeCount");
			if (auto m = d.hasMultiedge()) if (dc[{int(m->first - off), int(m->second - off)}] < 2) return bad("DiGraph::hasMultiedge witness"); if (auto m = g.hasMultiedge()) if (uc[{int(std::min(m->first, m->second) - off), int(std::max(m->first, m->second) - off)}] < 2) return bad("Graph::hasMultiedge witness"); if (auto l = g.hasSelfloop()) if (!uc.count({int(*l - off), int(*l - off)})) return bad("hasSelfloop witness");
			if (k % 16 && k % 128 < 125 && k + 3 < all.size() && k > 2) continue;
			std::vector<int> col(n, -1); bool bip = true; for (int r = 0; r < n; r++) if (col[r] < 0) { std::vector<int> q{r}; col[r] = 0; for (size_t i = 0; i < q.size(); i++) for (int z : adj[q[i]]) { if (col[z] < 0) col[z] = !col[q[i]], q.push_back(z); else if (col[z] == col[q[i]]) bip = false; } } if (g.isBipartite() != bip) return bad("Graph::isBipartite");
			std::vector<int> dg(n), q; for (int v = 0; v < n; v++) { dg[v] = in[v].size(); if (!dg[v]) q.push_back(v); } int roots = q.size(), root = roots == 1 ? q[0] : -1; for (size_t i = 0; i < q.size(); i++) for (int z : out[q[i]]) if (!--dg[z]) q.push_back(z); bool dag = (int)q.size() == n; auto o = d.isDAG(); if (o.has_value() != dag) return bad("DiGraph::isDAG"); if (o) { std::vector<int> pos(n, -1); if ((int)o->size() != n) return bad("DiGraph::isDAG order"); for (int i = 0; i < n; i++) { Integer v = (*o)[i] - off; if (v < 0 || v >= n || pos[v] >= 0) return bad("DiGraph::isDAG order"); pos[v] = i; } for (auto [s, t] : es) if (pos[s] >= pos[t]) return bad("DiGraph::isDAG order"); }
			bool tree = dag && (int)es.size() == n - 1 && root >= 0 && comp == 1; auto t = d.isTree(); if (t.has_value() != tree || (t && *t != root + off)) return bad("DiGraph::isTree");
			for (int v = 0; v < n; v += 1 + (k % 3)) { if (g.degree(v + off) != (Integer)adj[v].size() || d.outDegree(v + off) != (Integer)out[v].size() || d.inDegree(v + off) != (Integer)in[v].size()) return bad("degree"); int z = H(v + (int)k) % n; if (g.areConnected(v + off, z + off) != (rt(p, v) == rt(p, z))) return bad("Graph::areConnected"); if (g.hasEdge(v + off, z + off) != (adj[v].count(z) > 0) || d.hasEdge(v + off, z + off) != (out[v].count(z) > 0) || d.hasReverse(v + off, z + off) != (in[v].count(z) > 0)) return bad("hasEdge"); mc::step(7); }
			auto eq = [&](const std::set<Integer>& have, const std::set<int>& want) { if (have.size() != want.size()) return false; auto it = want.begin(); for (Integer x : have) if (x - off != *it++) return false; return true; }; int v = H((int)k * 3) % n; if (!eq(std::set<Integer>(g[v + off]), adj[v]) || !eq(std::set<Integer>(d[v + off]), out[v]) || !eq(std::set<Integer>(d.inEdges(v + off)), in[v])) return bad("neighbours");
		}
		mc::trace(); });
	// deep and large structures: must answer without deep recursion
	mc::parallel(6, [&](u64 i) { int n = 1000000; mc::current("large", "large structure " + mc::str(i)); mc::state(mc::comb(i, 77)); std::vector<E> es; Integer off = 1;
		if (i < 4) { UnionFind u(n); auto e = [&](int k) { int a = k, b = k + 1; if (i == 1) a = n - 2 - k, b = n - 1 - k; if (i == 2) a = 0; if (i & 1) std::swap(a, b); return E{a, b}; }; for (int k = 0; k + 1 < n; k++) { auto [a, b] = e(k); if (!u.unionSets(a, b)) { BAD("UnionFind::unionSets large"); break; } mc::step(); } if (!u.connected(0, n - 1)) BAD("UnionFind::connected large"); }
		else { int m = 100000; Graph g(off, off + m); DiGraph d(off, off + m); for (int k = m - 2; k >= 0; k--) { g.addEdge(i == 4 ? k + off : k + 1 + off, i == 4 ? k + 1 + off : k + off); d.addEdge(k + off, k + 1 + off); mc::step(2); } n = m; if (!g.isTree() || !g.isBipartite() || !g.isForest() || !g.isConnected()) BAD("Graph large path"); auto t = d.isTree(); if (!t || *t != off) BAD("DiGraph large path"); auto o = d.isDAG(); if (!o) BAD("DiGraph large DAG"); else for (int k = 0; k < m; k++) if ((*o)[k] != k + off) { BAD("DiGraph large DAG order"); break; } } mc::trace(); });
	mc::sample("DiGraph 0->1, 1->2: isDAG gives 0,1,2"); mc::sample("DiGraph n=3 with 1->2, 2->1 is not a tree although one vertex has no incoming edge");
	return mc::finish();
}
