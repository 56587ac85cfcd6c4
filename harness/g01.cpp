// G01: graph_gen.h containers: every operation history vs. an edge-list model
#include "g_ref.h"
static const char* OPN[] = {"add", "erase", "eraseEdge(e)", "setMinId", "normalize", "permutateEdges", "permutate(p)", "permutate", "combine", "combine-self", "append", "append-self", "range", "assign", "self-assign", "write", "reverse", "fail"};
struct Op { int k; int a, b; std::string str() const { return std::string(OPN[k]) + "(" + mc::str(a) + "," + mc::str(b) + ")"; } };
template<class E, bool DIR> struct Run {
	using G = std::conditional_t<DIR, DiGraph<E>, Graph<E>>; using D = Dat<E>;
	static constexpr bool ND = std::is_same_v<E, NoData>;
	static Integer val(Integer x) { return ND ? 0 : x; }
	static std::string fails(G& g, const Ref& m) { // out-of-range requests are refused and change nothing
		for (Integer bad : {m.lo - 1, m.lo + m.n, m.lo - 1000000, m.lo + m.n + 1000000}) for (Integer o : {m.lo, bad}) {
			if (m.n == 0 && o != bad) continue; const G& c = g; int ok = 0;
			ok += vh::refuses([&] { c.hasEdge(bad, o); }); ok += vh::refuses([&] { c.hasEdge(o, bad); }); ok += vh::refuses([&] { c.findEdge(bad, o); }); ok += vh::refuses([&] { g.findEdge(o, bad); }); ok += vh::refuses([&] { g.addEdge(bad, o); }); ok += vh::refuses([&] { g.addEdge(o, bad); }); ok += vh::refuses([&] { g.eraseEdge(bad, o); }); ok += vh::refuses([&] { g.eraseEdge(o, bad); }); ok += vh::refuses([&] { c.degree(bad); }); ok += vh::refuses([&] { (void)c[bad]; }); ok += vh::refuses([&] { (void)g[bad]; });
			if (ok != 11) return "an out-of-range vertex is not refused";
		}
		if (m.n && !vh::refuses([&] { g.addEdge(m.lo, m.lo); })) return "a selfloop is not refused"; if (!vh::refuses([&] { g.getEdgeById(m.e.size()); }) || !vh::refuses([&] { g.getEdgeById(-1); })) return "getEdgeById accepts a wrong id";
		return "";
	}
	static G mk(Integer lo, Integer n, std::vector<EP> es, Integer d, Ref& r) { G g(lo, lo + n); r = Ref{DIR, lo, n, {}}; for (auto [a, b] : es) { g.addEdge(a + lo, b + lo, D::mk(d)); r.e[r.key(a + lo, b + lo)] = val(d); d++; } return g; }
	static std::string apply(G& g, Ref& m, const Op& op, Integer stepNo) {
		Integer d = 10 * stepNo - 10, a = m.lo + op.a, b = m.lo + op.b;
		auto edge = [&](Integer x) { return x >= m.lo && x < m.lo + m.n; };
		switch (op.k) {
		case 0: { if (!edge(a) || !edge(b)) return "skip"; auto e = g.addEdge(a, b, D::mk(d)); m.e[m.key(a, b)] = val(d); if (e.from != a || e.to != b || dataOf<E>(e) != val(d)) return "addEdge returns the wrong edge"; return ""; }
		case 1: { if (!edge(a) || !edge(b)) return "skip"; bool r = g.eraseEdge(a, b); if (r != m.has(a, b)) return "eraseEdge returns the wrong answer"; m.e.erase(m.key(a, b)); return ""; }
		case 2: { if (m.e.empty()) return "skip"; auto e = g.getEdgeById(op.a ? g.edgeCount() - 1 : 0); m.e.erase(m.key(e.from, e.to)); if (!g.eraseEdge(e)) return "eraseEdge(Edge) returns false"; return ""; }
		case 3: { g.setMinId(op.a); m = m.moved(op.a); return ""; }
		case 4: { g.normalize(); m = m.moved(0); return ""; }
		case 5: { g.permutateEdges(); return ""; }
		case 6: { std::vector<Integer> p(m.n); for (Integer i = 0; i < m.n; i++) p[i] = m.lo + (op.a ? m.n - 1 - i : (i + 1) % m.n); g.permutate(p); m = m.mapped(p); return ""; }
		case 7: { if (m.n > 4) return "skip"; g.permutate(); Ref r; auto s = readBack(g, r); if (!s.empty()) return s; std::vector<Integer> p(m.n); for (Integer i = 0; i < m.n; i++) p[i] = i + m.lo; bool ok = false; do ok = m.mapped(p) == r; while (!ok && std::next_permutation(p.begin(), p.end())); if (!ok) return "permutate() gives a graph that is no relabelling: " + r.str(); m = r; return ""; }
		case 8: { Ref o; G h = mk(m.lo + op.a, 3, {{0, 1}, {2, 0}}, d, o); g.combine(h); Integer hi = std::max(m.lo + m.n, o.lo + o.n), lo = std::min(m.lo, o.lo); m.lo = lo; m.n = hi - lo; for (auto& [k, x] : o.e) m.e[m.key(k.first, k.second)] = x; auto s = same(h, o); return s.empty() ? "" : "combine changed its argument: " + s; }
		case 9: { g.combine(g); return ""; }
		case 10: { if (m.n > 4) return "skip"; Ref o; G h = mk(op.a, 2, {{1, 0}}, d, o); g.append(h); Integer base = m.lo + m.n; m.n += 2; m.e[m.key(base + 1, base)] = val(d); auto s = same(h, o); return s.empty() ? "" : "append changed its argument: " + s; }
		case 11: { if (m.n > 4) return "skip"; g.append(g); Ref c = m; for (auto& [k, x] : c.e) m.e[{k.first + c.n, k.second + c.n}] = x; m.n *= 2; return ""; }
		case 12: { Integer f = m.lo + op.a, t = m.lo + m.n + op.b; if (t < f) return "skip"; G h = g.range(f, t); auto s = same(g, m); if (!s.empty()) return "range changed its operand: " + s; Ref r{DIR, f, t - f, {}}; for (auto& [k, x] : m.e) if (k.first >= f && k.first < t && k.second >= f && k.second < t) r.e[k] = x; g = h; m = r; return ""; }
		case 13: { Ref o; G h = mk(4, 2, {{0, 1}}, d, o); h = g; auto s = same(h, m); if (!s.empty()) return "assignment: " + s; G c = g.copy(); G c2(g); for (auto& [k, x] : m.e) { g.eraseEdge(k.first, k.second); } s = same(c, m); if (s.empty()) s = same(h, m); if (s.empty()) s = same(c2, m); if (!s.empty()) return "a copy changes with its original: " + s; g = op.a ? c : std::move(h); return ""; }
		case 14: { G& r = g; g = r; return ""; }
		case 15: { if constexpr (!ND) { if (op.a == 0) { Integer i = 0; for (auto e : g.getEdges()) { e.data = D::mk(d + i); m.e[m.key(e.from, e.to)] = d + i; i++; } } else if (op.a == 1) { if (!m.n) return "skip"; Integer i = 0; for (auto e : g[m.lo + m.n - 1]) { *e = D::mk(d + i); m.e[m.key(e.from, e.to)] = d + i; i++; } } else { if (m.n < 2) return "skip"; auto f = g.findEdge(m.lo + 1, m.lo); if (f) { f->data = D::mk(d); m.e[m.key(m.lo + 1, m.lo)] = d; } } return ""; } else return "skip"; }
		case 16: { if constexpr (DIR) { g.reverse(); Ref r = m; r.e.clear(); for (auto& [k, x] : m.e) r.e[{k.second, k.first}] = x; m = r; return ""; } else return "skip"; }
		case 17: return fails(g, m);
		}
		return "";
	}
	static std::string finalChecks(G& g, const Ref& m) {
		auto s = same(g, m); if (!s.empty()) return s;
		// non-const views
		{ std::map<EP, Integer> x; for (auto e : g.getEdges()) x[m.key(e.from, e.to)] = dataOf<E>(e); if (x != m.e) return "getEdges() (non-const) is wrong"; for (Integer a = m.lo; a < m.lo + m.n; a++) { std::set<Integer> w, o; for (auto& [k, d] : m.e) { if (k.first == a) w.insert(k.second); if (!DIR && k.second == a) w.insert(k.first); } for (auto e : g[a]) o.insert(e.to); if (o != w) return "operator[] (non-const) is wrong"; } for (auto& [k, d] : m.e) { auto f = g.findEdge(k.first, k.second); if (!f || dataOf<E>(*f) != d) return "findEdge (non-const) is wrong"; auto b = g.getEdgeById(0); if (!m.has(b.from, b.to)) return "getEdgeById (non-const) is wrong"; } }
		// printed form
		if constexpr (!std::is_same_v<E, std::string>) { std::ostringstream a, b; a << g; OutputStream os(b); os << g; if (a.str() != b.str()) return "the two printed forms differ"; std::istringstream in(a.str()); Integer n, e; in >> n >> e; if (!in || n != m.n || e != (Integer)m.e.size()) return "printed header is wrong: " + mc::esc(a.str()); std::map<EP, Integer> x; std::string l; std::getline(in, l); Integer lines = 0; while (std::getline(in, l)) { std::istringstream li(l); Integer p, q, d = 0; li >> p >> q; if (!ND) li >> d; std::string rest; if (!li || (li >> rest)) return "printed edge is wrong: " + mc::esc(a.str()); x[m.key(p, q)] = d; lines++; } if (x != m.e || lines != (Integer)m.e.size()) return "printed edges are wrong: " + mc::esc(a.str()); if (!a.str().empty() && a.str().back() == '\n') return "printed form ends with a newline"; }
		// every window
		for (Integer f = m.lo - 1; f <= m.lo + m.n; f++) for (Integer t = f; t <= m.lo + m.n + 1; t++) { G h = g.range(f, t); Ref r{DIR, f, t - f, {}}; for (auto& [k, x] : m.e) if (k.first >= f && k.first < t && k.second >= f && k.second < t) r.e[k] = x; s = same(h, r); if (!s.empty()) return "range(" + mc::str(f) + "," + mc::str(t) + ") " + s; }
		if (!vh::refuses([&] { g.range(m.lo + 1, m.lo); })) return "range accepts an inverted range";
		return fails(g, m);
	}
	static void explore(Integer lo, Integer n, const std::vector<Op>& ops, int L, int first, int nfirst, const char* nm) {
		std::vector<int> seq; u64 cnt = 0; std::function<u64()> src = [&] { return mc::mix(++cnt * 77777 + seq.size()); };
		std::function<void(int)> rec = [&](int left) {
			// replay the whole history on a fresh graph
			if (!seq.empty()) {
				G g(lo, lo + n); Ref m{DIR, lo, n, {}}; cnt = mc::comb(seq[0], seq.size()) & 1023; env::source = &src;
				std::string h = std::string(nm) + (DIR ? " DiGraph" : " Graph") + "(" + mc::str(lo) + "," + mc::str(lo + n) + ")"; std::string s;
				for (int o : seq) h += " " + ops[o].str(); mc::current("graph", h);
				try { for (size_t i = 0; i < seq.size(); i++) { s = apply(g, m, ops[seq[i]], i); mc::step(); if (!s.empty()) break; } if (s.empty()) { mc::state(m.hash()); s = finalChecks(g, m); } } catch (const std::exception& e) { s = std::string("throws ") + e.what(); }
				env::source = nullptr; mc::trace();
				if (s == "skip") return; 
				if (!s.empty()) { std::string k = s.substr(0, 24); mc::violation(std::string("history:") + k, h + ": " + s); return; }
			}
			if (left) for (int o = seq.empty() ? first : 0; o < (seq.empty() ? nfirst : (int)ops.size()); o++) { seq.push_back(o); rec(left - 1); seq.pop_back(); }
		};
		rec(L);
	}
	// long histories on larger graphs, compared with the model as they go
	static void longRun(Integer lo, Integer n, u64 seed, int len, const char* nm) {
		u64 cnt = 0; std::function<u64()> src = [&] { return mc::mix(++cnt * 131 + seed * 1000003); }; env::source = &src; G g(lo, lo + n); Ref m{DIR, lo, n, {}}; std::string h = std::string("long history #") + mc::str(seed) + " of a " + nm + (DIR ? " DiGraph(" : " Graph(") + mc::str(lo) + "," + mc::str(lo + n) + ")", s; mc::current("graph", h);
		for (int i = 0; i < len && s.empty(); i++) { u64 r = mc::mix(seed * 7919 + i * 17); int k = r % 100, a = (r >> 8) % m.n, b = (r >> 40) % m.n; bool dense = (i / 60) % 2 == 0; Op op{0, a, b};
			if (k < (dense ? 70 : 25)) op = {0, a == b ? (a + 1) % (int)m.n : a, b}; else if (k < (dense ? 76 : 70)) { if (m.e.empty()) continue; auto it = m.e.begin(); std::advance(it, (r >> 20) % m.e.size()); op = {1, int(it->first.first - m.lo), int(it->first.second - m.lo)}; if (!DIR && (r >> 50) % 2) std::swap(op.a, op.b); } else if (k < 80) op = {2, int(r >> 30 & 1), 0}; else if (k < 84) op = {5, 0, 0}; else if (k < 87) op = {6, int(r >> 33 & 1), 0}; else if (k < 90) op = {3, int(r >> 35) % 50, 0}; else if (k < 92) op = {13, int(r >> 33 & 1), 0}; else if (k < 95) op = {15, int(r >> 33 & 1), 0}; else if (k < 97) op = {16, 0, 0}; else if (k < 98 && m.n < 90) op = {8, int(r >> 33) % 9 - 4, 0}; else op = {9, 0, 0};
			if (op.k == 3 && lo > 1000) { g.setMinId(lo + op.a); m = m.moved(lo + op.a); mc::step(); continue; }
			try { s = apply(g, m, op, i); mc::step(); if (s == "skip") s = ""; if (s.empty() && i % 16 == 15) s = same(g, m); } catch (const std::exception& e) { s = std::string("throws ") + e.what(); } if (!s.empty()) s = "after step " + mc::str(i) + " " + op.str() + ": " + s; }
		if (s.empty()) { try { s = same(g, m); if (s.empty() && m.n <= 45) s = finalChecks(g, m); } catch (const std::exception& e) { s = std::string("throws ") + e.what(); } }
		if (!s.empty()) mc::violation("long:history", h + " " + s.substr(0, 400)); mc::state(m.hash()); mc::trace(); env::source = nullptr;
	}
	// grow to many edges, then shrink to nothing; join graphs far apart; windows of long edges
	static std::string light(const G& g, const Ref& m) { if (g.edgeCount() != (Integer)m.e.size()) return "edgeCount() is " + mc::str(g.edgeCount()); size_t k = 0; for (auto e : g.getEdges()) { auto it = m.e.find(m.key(e.from, e.to)); if (it == m.e.end() || it->second != dataOf<E>(e)) return "getEdges() is wrong"; k++; } if (k != m.e.size()) return "getEdges() is wrong"; size_t deg = 0; for (Integer v = m.lo; v < m.lo + m.n; v++) { size_t c = 0; for (auto e : g[v]) { if (e.from != v || !m.has(v, e.to) || dataOf<E>(e) != m.e.at(m.key(v, e.to))) return "operator[] is wrong"; c++; } if ((Integer)c != g.degree(v)) return "degree() is wrong"; deg += c; } return deg == m.e.size() * (DIR ? 1 : 2) ? "" : "the neighbours do not add up"; }
	static void growShrink(Integer lo, Integer n, int N, int how) {
		G g(lo, lo + n); Ref m{DIR, lo, n, {}}; std::string h = std::string(DIR ? "DiGraph(" : "Graph(") + mc::str(lo) + "," + mc::str(lo + n) + ") grown to " + mc::str(N) + " edges and erased in order " + mc::str(how), s; mc::current("grow", h); std::vector<EP> es;
		for (Integer k = 0; (int)es.size() < N && k < 20 * N; k++) { Integer a = lo + mc::mix(k * 3 + how) % n, b = lo + mc::mix(k * 5 + 77) % n; if (a == b || m.has(a, b)) continue; g.addEdge(a, b, D::mk(k)); m.e[m.key(a, b)] = val(k); es.push_back({a, b}); mc::step(); }
		s = light(g, m); int i = 0;
		while (s.empty() && g.edgeCount()) { Integer c = g.edgeCount(), id = how == 0 ? c - 1 : how == 1 ? 0 : how == 2 ? c / 2 : mc::mix(c * 7) % c; auto e = g.getEdgeById(id); Integer a = e.from, b = e.to; bool r = (i & 1) && !DIR ? g.eraseEdge(b, a) : g.eraseEdge(a, b); mc::step(); m.e.erase(m.key(a, b)); i++; if (!r || g.hasEdge(a, b) || (!DIR && g.hasEdge(b, a)) || g.findEdge(a, b)) s = "an erased edge is still there"; else if (N <= 300 || c % 97 == 0 || (c & (c - 1)) == 0) s = light(g, m); if (!s.empty()) s = "with " + mc::str(g.edgeCount()) + " edges left: " + s; }
		if (!s.empty()) mc::violation("grow:shrink", h + ": " + s); mc::state(mc::comb(mc::hashStr(h), DIR)); mc::trace();
	}
	static void joins(Integer lo, Integer n, Integer gap, Integer k) {
		std::string h = "joining [" + mc::str(lo) + "," + mc::str(lo + n) + ") with " + mc::str(k) + " vertices from " + mc::str(lo + gap); mc::current("join", h); Ref a, b; std::vector<EP> ea, eb; for (Integer i = 0; i + 1 < n; i++) ea.push_back({i, mc::mix(i) % 2 ? n - 1 : i + 1}); for (Integer i = 1; i < k; i++) eb.push_back({i, mc::mix(i + 5) % i}); for (auto* v : {&ea, &eb}) v->erase(std::remove_if(v->begin(), v->end(), [](EP e) { return e.first == e.second; }), v->end());
		G g = mk(lo, n, ea, 1000, a), o = mk(lo + gap, k, eb, 5000, b); std::string s;
		{ G c = g; c.combine(o); Ref w = a; Integer hi = std::max(a.lo + a.n, b.lo + b.n); w.lo = std::min(a.lo, b.lo); w.n = hi - w.lo; for (auto& [q, d] : b.e) w.e[w.key(q.first, q.second)] = d; mc::step(); if (c.getMinId() != w.lo || c.nodeCount() != w.n) s = "combine gives the vertices [" + mc::str(c.getMinId()) + "," + mc::str(c.getNextId()) + ")"; else s = light(c, w);
			for (Integer f : {w.lo, w.lo + w.n / 3, lo, lo + gap}) for (Integer t : {w.lo + w.n, w.lo + w.n * 2 / 3, lo + n, lo + gap + k}) if (f <= t && s.empty()) { G x = c.range(f, t); Ref r{DIR, f, t - f, {}}; for (auto& [q, d] : w.e) if (q.first >= f && q.first < t && q.second >= f && q.second < t) r.e[q] = d; mc::step(); if (x.getMinId() != f || x.nodeCount() != t - f) s = "range has the wrong vertices"; else s = light(x, r); if (!s.empty()) s = "range(" + mc::str(f) + "," + mc::str(t) + ") " + s; } }
		if (s.empty()) { G c = g; c.append(o); Ref w = a; w.n += k; for (auto& [q, d] : b.e) w.e[w.key(q.first - b.lo + a.lo + a.n, q.second - b.lo + a.lo + a.n)] = d; mc::step(); if (c.getMinId() != w.lo || c.nodeCount() != w.n) s = "append has the wrong vertices"; else s = light(c, w); if (!s.empty()) s = "append: " + s; }
		if (s.empty()) { G c = g; c.setMinId(lo + gap); Ref w = a.moved(lo + gap); s = light(c, w); if (s.empty()) { c.normalize(); s = light(c, a.moved(0)); } if (!s.empty()) s = "setMinId: " + s; }
		if (!s.empty()) mc::violation("join:large", h + ": " + s); mc::state(mc::comb(mc::hashStr(h), DIR)); mc::trace();
	}
};
int main(int argc, char** argv) {
	mc::init(argc, argv); const bool T = mc::thorough;
	std::vector<Op> ops; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) ops.push_back({0, a, b}); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b && (a + b != 2 || a == 2)) ops.push_back({1, a, b});
	for (Op o : {Op{2, 0, 0}, Op{2, 1, 0}, Op{3, -7, 0}, Op{3, 5, 0}, Op{4, 0, 0}, Op{5, 0, 0}, Op{6, 0, 0}, Op{6, 1, 0}, Op{7, 0, 0}, Op{8, -1, 0}, Op{8, 1, 0}, Op{9, 0, 0}, Op{10, 0, 0}, Op{10, 3, 0}, Op{11, 0, 0}, Op{12, 1, 0}, Op{12, -1, -1}, Op{12, 0, 1}, Op{13, 0, 0}, Op{13, 1, 0}, Op{14, 0, 0}, Op{15, 0, 0}, Op{15, 1, 0}, Op{15, 2, 0}, Op{16, 0, 0}, Op{17, 0, 0}}) ops.push_back(o);
	std::vector<Op> core; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a < b) core.push_back({0, a, b}); core.push_back({0, 2, 0}); core.push_back({1, 0, 1}); core.push_back({1, 2, 0}); core.push_back({1, 1, 2}); core.push_back({2, 0, 0}); core.push_back({5, 0, 0}); core.push_back({15, 0, 0}); core.push_back({3, 5, 0});
	struct J { int type; Integer lo, n; int first; bool core; }; std::vector<J> js;
	for (int first = 0; first < (int)ops.size(); first++) for (int type = 0; type < 6; type++) for (Integer lo : {0ll, -2ll}) for (Integer n : {3ll, 1ll}) { if (n == 1 && type != 2) continue; if (type >= 4 && lo != 0) continue; js.push_back({type, lo, n, first, false}); }
	for (int first = 0; first < (int)core.size(); first++) for (int type = 0; type < 6; type++) js.push_back({type, 1, 3, first, true});
	mc::parallel(js.size(), [&](u64 i) { auto& j = js[i]; mc::nontrivial(); const auto& O = j.core ? core : ops; int L = j.core ? (T ? 6 : 5) : (T ? 4 : 3); if (j.type >= 4) L--;
		if (j.type == 0) Run<NoData, false>::explore(j.lo, j.n, O, L, j.first, j.first + 1, ""); if (j.type == 1) Run<NoData, true>::explore(j.lo, j.n, O, L, j.first, j.first + 1, "");
		if (j.type == 2) Run<Integer, false>::explore(j.lo, j.n, O, L, j.first, j.first + 1, "<Integer>"); if (j.type == 3) Run<Integer, true>::explore(j.lo, j.n, O, L, j.first, j.first + 1, "<Integer>");
		if (j.type == 4) Run<std::string, false>::explore(j.lo, j.n, O, L, j.first, j.first + 1, "<string>"); if (j.type == 5) Run<std::string, true>::explore(j.lo, j.n, O, L, j.first, j.first + 1, "<string>"); });
	std::vector<std::array<Integer, 3>> lr; for (Integer sd = 0; sd < (T ? 60 : 12); sd++) for (auto [lo, n] : std::vector<EP>{{0, 12}, {-20, 40}, {3, 80}, {Integer(1) << 40, 30}, {-(Integer(1) << 33), 20}}) lr.push_back({lo, n, sd});
	mc::parallel(lr.size() * 4, [&](u64 i) { auto [lo, n, sd] = lr[i / 4]; int len = 400; mc::nontrivial(); if (i % 4 == 0) Run<NoData, false>::longRun(lo, n, sd, len, "plain"); if (i % 4 == 1) Run<NoData, true>::longRun(lo, n, sd, len, "plain"); if (i % 4 == 2) Run<Integer, false>::longRun(lo, n, sd, len, "Integer"); if (i % 4 == 3) Run<Integer, true>::longRun(lo, n, sd, len, "Integer"); });
	mc::parallel(4 * 4 * 3, [&](u64 i) { int how = i % 4, N = i / 16 == 0 ? 300 : i / 16 == 1 ? 3000 : T ? 40000 : 8000; Integer lo = i / 16 ? -50 : 4, n = i / 16 ? 700 : 25; switch (i / 4 % 4) { case 0: Run<NoData, false>::growShrink(lo, n, N, how); break; case 1: Run<NoData, true>::growShrink(lo, n, N, how); break; case 2: Run<Integer, false>::growShrink(lo, n, N, how); break; default: Run<std::string, true>::growShrink(lo, n, N, how); } });
	std::vector<std::array<Integer, 4>> jn; for (Integer lo : {Integer(0), Integer(-700), Integer(1) << 35}) for (auto [n, k] : std::vector<EP>{{3, 2}, {10, 130}, {300, 40}, {5000, 3000}}) for (Integer gap : {0, 1, 70, 129, 257, 1000, 40000, -1, -90, -128, -300, -5000}) jn.push_back({lo, n, gap, k});
	mc::parallel(jn.size() * 4, [&](u64 i) { auto [lo, n, gap, k] = jn[i / 4]; if (i % 4 == 0) Run<NoData, false>::joins(lo, n, gap, k); if (i % 4 == 1) Run<NoData, true>::joins(lo, n, gap, k); if (i % 4 == 2) Run<Integer, false>::joins(lo, n, gap, k); if (i % 4 == 3) Run<Integer, true>::joins(lo, n, gap, k); });
	mc::parallel(1, [&](u64) { mc::current("construct", "construction");
		Graph<> e; if (e.nodeCount() != 0 || e.edgeCount() != 0 || e.getMinId() != 0 || e.getNextId() != 0) mc::violation("construct:empty", "Graph<>() is not empty"); mc::step(4);
		if (!vh::refuses([] { Graph<> g(2, 1); }) || !vh::refuses([] { Graph<> g(-1); }) || !vh::refuses([] { DiGraph<Integer> g(5, -5); })) mc::violation("construct:inverted", "Graph(from, to) accepts from > to");
		Graph<> g(2, 5); g.addEdge(2, 3); for (auto p : std::vector<std::vector<Integer>>{{2, 3}, {2, 3, 4, 5}, {2, 2, 3}, {1, 2, 3}, {3, 4, 5}, {}, {2, 3, 5}}) { std::function<u64()> src = [] { return 0ull; }; env::source = &src; if (!vh::refuses([&] { Graph<> h = g; h.permutate(p); })) mc::violation("permutate:refused", "permutate accepts a list of " + mc::str(p.size()) + " ids that is no permutation of the 3 vertices"); env::source = nullptr; } });
	mc::sample("Graph(0,3) add(0,1) add(1,2) erase(0,1) permutateEdges: the remaining edge keeps its data");
	return mc::finish();
}
