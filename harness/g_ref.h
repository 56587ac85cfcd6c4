// reference graph: minId, vertex count, set of edges (unordered pairs when undirected) with data
#pragma once
#include "vh.h"
#include "graph_gen.h"
using EP = std::pair<Integer, Integer>;
struct Ref {
	bool dir = false; Integer lo = 0, n = 0; std::map<EP, Integer> e;
	EP key(Integer a, Integer b) const { return !dir && a > b ? EP{b, a} : EP{a, b}; }
	bool has(Integer a, Integer b) const { return e.count(key(a, b)); }
	bool operator==(const Ref& o) const { return lo == o.lo && n == o.n && e == o.e; }
	Ref mapped(const std::vector<Integer>& p) const { Ref r = *this; r.e.clear(); for (auto& [k, d] : e) r.e[r.key(p[k.first - lo], p[k.second - lo])] = d; return r; }
	Ref moved(Integer newLo) const { Ref r = *this; r.lo = newLo; r.e.clear(); for (auto& [k, d] : e) r.e[{k.first - lo + newLo, k.second - lo + newLo}] = d; return r; }
	std::string str() const { std::string s = (dir ? "di[" : "un[") + mc::str(lo) + "," + mc::str(lo + n) + ")"; int c = 0; for (auto& [k, d] : e) { if (c++ > 20) { s += "..."; break; } s += " " + mc::str(k.first) + (dir ? ">" : "-") + mc::str(k.second) + ":" + mc::str(d); } return s; }
	mc::u64 hash() const { mc::u64 h = mc::comb(lo, n * 2 + dir); for (auto& [k, d] : e) h = mc::comb(h, mc::comb(mc::comb(k.first, k.second), d)); return h; }
};
template<class E> struct Dat { static E mk(Integer x) { return (E)x; } static Integer of(const E& e) { return (Integer)e; } };
template<> struct Dat<std::string> { static std::string mk(Integer x) { return "edge-data-that-needs-the-heap-" + std::to_string(x); } static Integer of(const std::string& s) { return s.size() < 30 ? -999 : atoll(s.c_str() + 30); } };
template<> struct Dat<NoData> { static NoData mk(Integer) { return {}; } static Integer of(const NoData&) { return 0; } };
template<class E, class W> static Integer dataOf(const W& w) { if constexpr (std::is_same_v<E, NoData>) return 0; else { Integer a = Dat<E>::of(w.data), b = Dat<E>::of(*w); return a == b ? a : -12345; } }
// read a graph back through its public interface; "" or what is inconsistent
template<class E, bool DIR> static std::string readBackOf(const std::conditional_t<DIR, DiGraph<E>, Graph<E>>& g, Ref& r) {
	r.dir = DIR; r.lo = g.getMinId(); r.n = g.nodeCount(); r.e.clear(); Integer m = 0;
	if ((Integer)g.size() != r.n) return "size() differs from nodeCount()"; if (g.getNextId() != r.lo + r.n) return "getNextId()";
	for (auto e : g.getEdges()) { m++; EP k = r.key(e.from, e.to); if (e.from < r.lo || e.from >= r.lo + r.n || e.to < r.lo || e.to >= r.lo + r.n) return "edge " + mc::str(e.from) + "-" + mc::str(e.to) + " leaves the vertex range"; if (e.from == e.to) return "selfloop"; if (r.e.count(k)) return "edge " + mc::str(e.from) + "-" + mc::str(e.to) + " appears twice in getEdges()"; r.e[k] = dataOf<E>(e); if (m > 5000000) return "getEdges() does not end"; }
	if (m != g.edgeCount()) return "edgeCount() is " + mc::str(g.edgeCount()) + ", getEdges() has " + mc::str(m);
	return "";
}
template<class E> static std::string readBack(const Graph<E>& g, Ref& r) { return readBackOf<E, false>(g, r); }
template<class E> static std::string readBack(const DiGraph<E>& g, Ref& r) { return readBackOf<E, true>(g, r); }
// every adjacency query against the edge list
template<class E, bool DIR> static std::string queriesOf(const std::conditional_t<DIR, DiGraph<E>, Graph<E>>& g, const Ref& r) {
	Integer v = r.lo; std::vector<Integer> deg; mc::step(r.n * r.n);
	for (Integer a = r.lo; a < r.lo + r.n; a++) {
		std::map<Integer, Integer> want, got; for (auto& [k, d] : r.e) { if (k.first == a) want[k.second] = d; else if (!DIR && k.second == a) want[k.first] = d; }
		for (auto e : g[a]) { if (e.from != a) return "operator[] gives an edge not starting at the vertex"; if (got.count(e.to)) return "operator[] repeats an edge"; got[e.to] = dataOf<E>(e); }
		if (got != want) return "operator[](" + mc::str(a) + ") is wrong"; if (g.degree(a) != (Integer)want.size()) return "degree(" + mc::str(a) + ") is wrong"; deg.push_back(want.size());
		for (Integer b = r.lo; b < r.lo + r.n; b++) { bool w = want.count(b); if (g.hasEdge(a, b) != w) return "hasEdge(" + mc::str(a) + "," + mc::str(b) + ") is wrong"; auto f = g.findEdge(a, b); if (f.has_value() != w) return "findEdge is wrong"; if (f && (f->from != a || f->to != b || dataOf<E>(*f) != want[b])) return "findEdge gives the wrong edge"; }
	}
	std::vector<Integer> gd; for (auto d : g.getDegrees()) gd.push_back(d); if (gd != deg) return "getDegrees() is wrong";
	std::map<EP, Integer> byId; for (Integer i = 0; i < g.edgeCount(); i++) { auto e = g.getEdgeById(i); byId[r.key(e.from, e.to)] = dataOf<E>(e); } if (byId != r.e) return "getEdgeById is wrong";
	return "";
}
template<class E> static std::string queries(const Graph<E>& g, const Ref& r) { return queriesOf<E, false>(g, r); }
template<class E> static std::string queries(const DiGraph<E>& g, const Ref& r) { return queriesOf<E, true>(g, r); }
template<class E, bool DIR> static std::string sameOf(const std::conditional_t<DIR, DiGraph<E>, Graph<E>>& g, const Ref& want) {
	Ref r; auto s = readBack(g, r); if (!s.empty()) return s; if (!(r == want)) return "is " + r.str() + " instead of " + want.str(); return queries(g, want);
}
template<class E> static std::string same(const Graph<E>& g, const Ref& want) { return sameOf<E, false>(g, want); }
template<class E> static std::string same(const DiGraph<E>& g, const Ref& want) { return sameOf<E, true>(g, want); }
