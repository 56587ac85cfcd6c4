// V20: what the library prints (values, joined ranges, generated data, generated graphs) the strict reader reads
// back as the same values, and nothing is left over
#include "vh.h"
#include "graph_gen.h"
#define Graph ValGraph
#define DiGraph ValDiGraph
#include "graph_val.h"
#undef Graph
#undef DiGraph
#include <sstream>
using std::string; using std::vector; using std::pair;
template<class T> static string show(const T& x) { if constexpr (std::is_arithmetic_v<T>) return mc::str(x); else if constexpr (std::is_same_v<T, string>) return x; else { string s; int c = 0; for (auto& y : x) { if (c++ > 12) { s += ".."; break; } s += show(y) + " "; } return s; } }
// print, then read strictly (space sensitive, case sensitive); the program must consume everything
template<class P, class R> static void trip(const string& key, const string& what, P print, R read) {
	mc::trace(); mc::step(2); std::ostringstream o; { OutputStream os(o); print(os); } string text = o.str(); mc::state(mc::hashStr(key + text));
	std::istringstream i(text); std::ostringstream m; OutputStream mo(m); InputStream in(i, true, true, mo, Verdicts::WA);
	string r = vh::outcome([&]() -> string { string e = read(in); if (e.empty()) in.eof(); return e; });
	if (!r.empty()) mc::violation("trip:" + key, what + " is printed as \"" + mc::esc(text.substr(0, 200)) + "\" and read back: " + r + " " + mc::esc(m.str().substr(0, 300)));
}
static string diff(bool ok, const string& got) { return ok ? "" : "got " + got; }
static vector<Integer> I() { vector<Integer> v = {0, 1, -1, 7, 9, 10, -10, 99, 100, 12345678901234567, -999999999999999999}; for (int k : {7, 8, 15, 16, 31, 32, 53, 62, 63}) for (int d : {-1, 0, 1}) { v.push_back((Integer)((1ull << k) + d)); v.push_back((Integer)(0 - ((1ull << k) + d))); } v.push_back(INT64_MAX); v.push_back(INT64_MIN); v.push_back(LARGE); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static vector<Real> F() { vector<Real> v = {0, 1, -1, 0.5L, -0.5L, 1e-6L, 5e-7L, 4.9e-7L, 1.5e-6L, -1.5e-6L, 0.9999994L, 0.9999996L, 123456.789012L, -99999.9999995L, 1e9L, 1e12L, 123456789012.345678L, 3.141592653589793238L, 1 / 3.0L, -2 / 3.0L, 1000000000000000000.0L, 9007199254740993.0L}; for (int i = 0; i < 30; i++) v.push_back(i * 0.1L + 1e-7L * i); return v; }
static const string SEPS = " \n\t,;:|/#xX_~!";
static void integers(u64 it) {
	static const auto V = I(); Integer a = V[it]; mc::current("integers", show(a)); mc::nontrivial();
	trip("integer", "integer " + show(a), [&](OutputStream& o) { o << a; }, [&](InputStream& i) { Integer x = i.integer(); return diff(x == a, show(x)); });
	if (a < INT64_MAX) trip("bounded", "integer " + show(a), [&](OutputStream& o) { o << a << '\n'; }, [&](InputStream& i) { Integer x = i.integer(a, a + 1); i.newline(); return diff(x == a, show(x)); });
	if (a < INT64_MAX) trip("exact", "integer " + show(a), [&](OutputStream& o) { o << a << '\n'; }, [&](InputStream& i) { i.expectInt(a); i.newline(); return ""; });
	for (Integer b : V) { string nm = show(a) + " and " + show(b);
		trip("pair", "pair " + nm, [&](OutputStream& o) { o << std::make_pair(a, b); }, [&](InputStream& i) { Integer x = i.integer(); i.space(); Integer y = i.integer(); return diff(x == a && y == b, show(x) + " " + show(y)); });
		trip("tuple", "tuple " + nm, [&](OutputStream& o) { o << std::make_tuple(a, string("w"), b); }, [&](InputStream& i) { Integer x = i.integer(); i.space(); i.expectString("w"); i.space(); Integer y = i.integer(); return diff(x == a && y == b, show(x) + " " + show(y)); });
		trip("vector", "vector of " + nm, [&](OutputStream& o) { o << vector<Integer>{a, b, a} << '\n'; }, [&](InputStream& i) { auto x = i.integers(3, SPACE); i.newline(); return diff(x == vector<Integer>{a, b, a}, show(x)); });
		trip("nested", "lines of " + nm, [&](OutputStream& o) { o << join({a, b}) << '\n' << vector<Integer>{b} << '\n' << join({b, a, a}, SPACE) << '\n'; }, [&](InputStream& i) { auto x = i.integers(2, SPACE); i.newline(); auto y = i.integers(1, SPACE); i.newline(); auto z = i.integers(3, SPACE); i.newline(); return diff(x == vector<Integer>{a, b} && y == vector<Integer>{b} && z == vector<Integer>{b, a, a}, show(x) + "/" + show(y) + "/" + show(z)); });
		trip("lines", "lines " + nm, [&](OutputStream& o) { o << join(vector<Integer>{a, b}, NEWLINE) << std::endl; }, [&](InputStream& i) { auto x = i.integers(2, NEWLINE); i.newline(); return diff(x == vector<Integer>{a, b}, show(x)); });
	}
	for (int n = 0; n <= 4; n++) { vector<Integer> v; for (int k = 0; k < n; k++) v.push_back(V[(it + 7 * k) % V.size()]);
		trip("iterators", "range " + show(v), [&](OutputStream& o) { o << join(v.begin(), v.end(), SPACE) << '\n'; }, [&](InputStream& i) { auto x = i.integers(n, SPACE); i.newline(); return diff(x == v, show(x)); });
		trip("distinct", "range " + show(v), [&](OutputStream& o) { o << v << '\n'; }, [&](InputStream& i) { auto x = i.integers(n, SPACE); i.newline(); return diff(x == v && bool(areDistinct(x)) == (std::set<Integer>(v.begin(), v.end()).size() == v.size()), show(x)); });
		trip("set", "sorted range " + show(v), [&](OutputStream& o) { std::set<Integer> s(v.begin(), v.end()); o << s.size() << '\n' << s << '\n'; }, [&](InputStream& i) { Integer c = i.integer(0, 5); i.newline(); auto x = i.integers(c, SPACE); i.newline(); return diff(bool(areDistinct(x)) && std::set<Integer>(x.begin(), x.end()) == std::set<Integer>(v.begin(), v.end()), show(x)); }); }
}
static void reals(u64 it) {
	static const auto V = F(); Real a = V[it]; mc::current("reals", show(a)); mc::nontrivial();
	auto near = [](Real x, Real y) { return fabsl(x - y) <= 0.5000001e-6L + fabsl(y) * 1e-18L; };
	trip("real", "real " + show(a), [&](OutputStream& o) { o << a; }, [&](InputStream& i) { Real x = i.real(); return diff(near(x, a), show(x)); });
	trip("realBounds", "real " + show(a), [&](OutputStream& o) { o << a; }, [&](InputStream& i) { Real x = i.real(a, a); return diff(near(x, a), show(x)); });
	trip("realStrict", "real " + show(a), [&](OutputStream& o) { o << a; }, [&](InputStream& i) { Real x = i.realStrict(a - 1, a + 1.5L, 6, 7); return diff(near(x, a), show(x)); });
	trip("realExpect", "real " + show(a), [&](OutputStream& o) { o << a; }, [&](InputStream& i) { i.expectReal(a); return ""; });
	for (int p = 0; p <= 18; p++) { Real t = powl(10, -p); trip("precision", "real " + show(a) + " with precision " + mc::str(p), [&](OutputStream& o) { o << std::setprecision(p) << a; }, [&](InputStream& i) { Real x = i.realStrict(a - 2, a + 2, p, p + 1); return diff(fabsl(x - a) <= 0.5000001L * t + fabsl(a) * 2e-19L, show(x)); }); }
	for (Real b : V) trip("reals", "reals " + show(a) + " " + show(b), [&](OutputStream& o) { o << vector<Real>{a, b, b} << '\n' << std::make_pair(b, 5) << '\n'; }, [&](InputStream& i) { auto x = i.reals(3, SPACE); i.newline(); Real y = i.real(); i.space(); Integer z = i.integer(); i.newline(); return diff(near(x[0], a) && near(x[1], b) && near(x[2], b) && near(y, b) && z == 5, show(x)); });
}
static void strings() {
	static const string AB = "aZ0.-"; vector<string> all; for (int l = 1; l <= 3; l++) for (u64 k = 0; k < mc::ipow(5, l); k++) { string s; for (int d : mc::digits(k, 5, l)) s += AB[d]; all.push_back(s); }
	for (auto& a : all) { mc::nontrivial(); trip("string", "string " + a, [&](OutputStream& o) { o << a << '\n'; }, [&](InputStream& i) { string x = i.string(); i.newline(); return diff(x == a, x); });
		for (auto& b : all) trip("strings", "strings " + a + " " + b, [&](OutputStream& o) { o << join(vector<string>{a, b, a}, ',') << '\n'; }, [&](InputStream& i) { string x = i.string(); i.newline(); return diff(x == a + "," + b + "," + a, x); }), trip("strings", "strings " + a + " " + b, [&](OutputStream& o) { o << vector<string>{a, b} << '\n'; }, [&](InputStream& i) { auto x = i.strings(2, SPACE); i.newline(); return diff(x[0] == a && x[1] == b, show(x)); }); }
}
// generated data: printed by a generator, read back with the bounds it was generated for; the recorded extremes are the data's
static const vector<u64> W = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAABull, 0x123456789ABCDEFull, 1ull << 32, 0xFFFFFFFFull};
static void data(u64 it) {
	vector<u64> w; for (int d : mc::digits(it, (int)W.size(), 3)) w.push_back(W[d]); mc::current("data", show(w)); mc::nontrivial();
	static const vector<pair<Integer, Integer>> B = {{0, 1}, {0, 7}, {-5, 6}, {1, 1000000001}, {-1000000000000000000, 1000000000000000001}, {INT64_MIN / 2, INT64_MAX / 2}, {INT64_MAX - 9, INT64_MAX}, {INT64_MIN, INT64_MIN + 9}};
	auto rnd = [&](const string& nm, Integer lo, Integer hi, int n, auto gen, auto valid) {
		vh::Script s(w); vector<Integer> v = gen(); string q = nm + " under words " + show(w);
		Constraint c; trip(nm, q, [&](OutputStream& o) { o << v.size() << '\n' << v << '\n'; }, [&](InputStream& i) { i.expectInt(n); i.newline(); auto x = i.integers(lo, hi, c, n, SPACE); i.newline(); return diff(x == v && bool(valid(x)), show(x)); });
	};
	for (auto [lo, hi] : B) { Integer l = lo, h = hi;
		rnd("Random::integer", l, h, 3, [&] { vector<Integer> v; for (int k = 0; k < 3; k++) v.push_back(Random::integer(l, h)); return v; }, [](auto&) { return true; });
		rnd("Random::multiple", l, h, 3, [&] { return Random::multiple(3, l, h); }, [](auto&) { return true; });
		Integer n = std::min<u64>(4, (u64)h - (u64)l);
		rnd("Random::distinct", l, h, n, [&] { return Random::distinct(n, l, h); }, [](auto& x) { return areDistinct(x); }); }
	for (Integer n : {1, 2, 5, 9}) { rnd("Random::perm", 0, n, n, [&] { return Random::perm(n); }, [&](auto& x) { return isPerm(x); }); rnd("Random::perm", -4, n - 4, n, [&] { return Random::perm(n, -4); }, [&](auto& x) { return isPerm(x, -4); });
		rnd("Random::partition", 1, 21, n, [&] { return Random::partition(20, n, 1); }, [&](auto& x) { return std::accumulate(x.begin(), x.end(), (Integer)0) == 20; });
		rnd("Random::bracketSequence", 40, 42, 2 * n, [&] { string s = Random::bracketSequence(n); return vector<Integer>(s.begin(), s.end()); }, [&](auto& x) { Integer d = 0, low = 0; for (auto y : x) d += y == '(' ? 1 : -1, low = std::min(low, d); return d == 0 && low == 0; }); }
	{ vh::Script s(w); for (auto [lo, hi] : vector<pair<Real, Real>>{{0, 1}, {-1, 1}, {-1e6L, 1e6L}, {0.25L, 0.5L}}) { Real l = lo, h = hi, r = Random::real(l, h); trip("Random::real", "Random::real under words " + show(w), [&](OutputStream& o) { o << r; }, [&](InputStream& i) { Real x = i.realStrict(l, h + 1e-6L, 6, 7); return diff(fabsl(x - r) < 0.51e-6L, show(x)); }); } }
}
// generated graphs
template<class E> static string dat(const E& e) { if constexpr (std::is_same_v<E, NoData>) return ""; else if constexpr (std::is_same_v<E, string>) return e; else return mc::str(e); }
using ES = std::multiset<std::tuple<Integer, Integer, string>>;
template<class E, bool DIR> static ES edges(const std::conditional_t<DIR, DiGraph<E>, Graph<E>>& g) { ES r; for (auto e : g.getEdges()) { if constexpr (std::is_same_v<E, NoData>) r.insert({e.from, e.to, ""}); else r.insert({e.from, e.to, dat<E>(*e)}); } return r; }
template<class E, bool DIR> static void graphImpl(const string& nm, const std::conditional_t<DIR, DiGraph<E>, Graph<E>>& g, bool lines) {
	ES want = edges<E, DIR>(g); Integer lo = g.getMinId(), hi = lo + g.nodeCount(); bool simple = true, par = false;
	trip("graph", nm, [&](OutputStream& o) { if (!lines) o << g << '\n'; else { o << g.nodeCount() << ' ' << g.edgeCount() << '\n'; for (const auto& e : g.getEdges()) o << e << '\n'; } }, [&](InputStream& i) -> string {
		Integer n = i.integer(0, 1000); i.space(); Integer m = i.integer(0, 1000000); i.newline(); if (n != (Integer)g.nodeCount() || m != (Integer)g.edgeCount()) return "sizes " + mc::str(n) + " " + mc::str(m);
		ES got; std::conditional_t<DIR, DiGraph<E>, Graph<E>> back(lo, hi); std::conditional_t<DIR, ValDiGraph, ValGraph> val(lo, hi);
		for (Integer k = 0; k < m; k++) { Integer a = i.integer(lo, hi); i.space(); Integer b = i.integer(lo, hi); E d{};
			if constexpr (std::is_same_v<E, string>) { i.space(); d = i.string(); } else if constexpr (std::is_integral_v<E>) { i.space(); d = (E)i.integer(); } i.newline(); val.addEdge(a, b); back.addEdge(a, b, d); got.insert({a, b, dat<E>(d)}); }
		if (got != want) return "other edges"; if (edges<E, DIR>(back) != want && DIR) return "the rebuilt graph has other edges"; if (back.edgeCount() != g.edgeCount()) return "the rebuilt graph has another number of edges";
		if (val.edgeCount() != m || val.nodeCount() != n || val.hasSelfloop() || val.hasMultiedge()) return "the validator's graph differs"; for (Integer a = lo; a < hi; a++) for (Integer b = lo; b < hi; b++) { if (val.hasEdge(a, b) != g.hasEdge(a, b) || val.hasEdge(a, b) != back.hasEdge(a, b)) return "hasEdge(" + mc::str(a) + "," + mc::str(b) + ") differs"; }
		if constexpr (DIR) { for (Integer a = lo; a < hi; a++) if (val.outDegree(a) != (Integer)g.degree(a)) return "degrees differ"; } else for (Integer a = lo; a < hi; a++) if (val.degree(a) != (Integer)g.degree(a)) return "degrees differ";
		return ""; });
}
template<class E> static void graph(const string& nm, const Graph<E>& g, bool lines = false) { return graphImpl<E, false>(nm, g, lines); }
template<class E> static void graph(const string& nm, const DiGraph<E>& g, bool lines = false) { return graphImpl<E, true>(nm, g, lines); }
template<class E, bool DIR> static void shapes(u64 it) {
	using G = std::conditional_t<DIR, DiGraph<E>, Graph<E>>; mc::current("graph", mc::str(it)); mc::nontrivial();
	for (Integer n = 0; n <= 4; n++) { int p = n * (n - 1) / (DIR ? 1 : 2); if (p < 0) p = 0; if (p > 12) continue; for (u64 s = it; s < (1ull << p); s += 8) for (Integer lo : {0, 1, -2}) for (int lines = 0; lines < 2; lines++) { G g(n); int k = 0;
		for (Integer a = 0; a < n; a++) for (Integer b = 0; b < n; b++) if (DIR ? a != b : a < b) { if (s >> k++ & 1) { E d{}; if constexpr (std::is_same_v<E, string>) d = "w" + mc::str(a) + "_" + mc::str(k); else if constexpr (std::is_integral_v<E>) d = (E)(k % 4 == (int)(s % 4) ? 0 : k % 2 ? INT64_MIN + k : INT64_MAX - k); if (k % 3) g.addEdge(a, b, d); else if (DIR) g.addEdge(a, b, d); else g.addEdge(b, a, d); } }
		g.setMinId(lo); graphImpl<E, DIR>("graph with " + mc::str(n) + " vertices from " + mc::str(lo) + ", edge set " + mc::str(s), g, lines);
		vh::Script sc({W[s % W.size()], W[it % W.size()]}); g.permutateEdges(); graphImpl<E, DIR>("graph with shuffled edges", g, lines); g.permutate(); graphImpl<E, DIR>("graph with shuffled vertices", g, lines); if constexpr (DIR) { g.reverse(); graphImpl<E, DIR>("reversed graph", g, lines); } else { auto d = g.directed(); graphImpl<E, true>("directed graph", d, lines); } } }
}
static void named(u64 it) {
	mc::current("named", mc::str(it)); mc::nontrivial(); vh::Script s({W[it % 11], W[it / 11 % 11]}); auto both = [&](const string& nm, auto g) { for (Integer lo : {0, 1}) { g.setMinId(lo); graph("" + nm + " from " + mc::str(lo), g); } };
	for (Integer n = 1; n <= 8; n++) { string q = "(" + mc::str(n) + ")"; both("randomTree" + q, randomTree<NoData, false>(n)); both("path" + q, path<NoData, false>(n)); both("clique" + q, clique<NoData, false>(n)); both("star" + q, star<NoData, false>(n)); if (n >= 3) both("cycle" + q, cycle<NoData, true>(n)); both("completeTree" + q, completeTree<NoData, false>(std::min<Integer>(n, 3), 2)); both("randomGraph" + q, randomGraph<NoData, false>(n, n * (n - 1) / 4)); both("randomGraph" + q, randomGraph<NoData, true>(n, n * (n - 1) / 3)); for (Integer m = 1; m <= 3; m++) { both("bipartite" + q, bipartite<NoData, false>(n, m)); both("randomBipartite" + q, randomBipartite<NoData, false>(n, m, n * m / 2)); } }
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	mc::parallel(I().size(), [&](u64 it) { integers(it); if (it == 0) mc::sample("vector (a b a) for all pairs of integers around powers of two, printed and read with integers(3)"); });
	mc::parallel(F().size(), reals);
	mc::parallel(1, [&](u64) { strings(); });
	mc::parallel(W.size() * W.size() * W.size(), [&](u64 it) { data(it); if (it == 5) mc::sample("Random::perm under engine words 0, ~0, 1, printed as \"n\\n p1 .. pn\\n\" and read with integers(lo, hi, n)"); });
	mc::parallel(8, shapes<NoData, false>); mc::parallel(8, shapes<NoData, true>); mc::parallel(8, shapes<Integer, false>); mc::parallel(8, shapes<Integer, true>); mc::parallel(8, shapes<string, false>); mc::parallel(8, shapes<string, true>);
	mc::parallel(121, [&](u64 it) { named(it); if (it == 0) mc::sample("randomTree, path, clique, star, cycle, bipartite and random graphs up to 8 vertices, printed and read back"); });
	return mc::finish();
}
