// R09, one build: replays every seeded call history and writes one hash per history (compared across builds by r09.cpp)
// usage: r09_gen OUTFILE DEPTH GRAPHDEPTH  |  r09_gen trace SEED c1 c2 ...
#include "validate.h"
#if __cplusplus >= 202002L
#include "graph_gen.h"
#endif
#include "r09_cat.h"
#include <cstdio>
#include <unistd.h>
static std::vector<cat::Call> C, G;
static const unsigned long long SEEDS[] = {0, 1, 123456789, 0xffffffffffffffffull};
template<class X> static void dump(cat::Out& o, const X& g) { std::ostringstream s; s << g; cat::put(o, s.str()); }
int main(int argc, char** argv) {
	C = cat::calls();
#if __cplusplus >= 202002L
	auto add = [&](const char* n, std::function<void(cat::Out&)> f) { G.push_back({n, f}); };
	add("randomTree(6)", [](cat::Out& o) { dump(o, randomTree(6)); });
	add("randomTree<NoData,true>(6)", [](cat::Out& o) { dump(o, randomTree<NoData, true>(6)); });
	add("randomGraph(6,7)", [](cat::Out& o) { dump(o, randomGraph(6, 7_int)); });
	add("randomGraph(6,0.4)", [](cat::Out& o) { dump(o, randomGraph(6, 0.4_real)); });
	add("randomGraph<NoData,true>(5,9)", [](cat::Out& o) { dump(o, randomGraph<NoData, true>(5, 9_int)); });
	add("randomBipartite(3,4,5)", [](cat::Out& o) { dump(o, randomBipartite(3, 4, 5_int)); });
	add("randomBipartite(3,4,0.5)", [](cat::Out& o) { dump(o, randomBipartite(3, 4, 0.5_real)); });
	add("randomGrowingGraph(6,0.5)", [](cat::Out& o) { dump(o, randomGrowingGraph(6, 0.5_real)); });
	add("randomGraph({2,2,1,1,3,1})", [](cat::Out& o) { dump(o, randomGraph(std::vector<Integer>{2, 2, 1, 1, 3, 1})); });
	add("cycle(6).permutate()", [](cat::Out& o) { auto g = cycle(6); g.permutate(); dump(o, g); });
	add("clique(4).permutateEdges()", [](cat::Out& o) { auto g = clique(4); g.permutateEdges(); dump(o, g); });
	add("cycle(7).range(4)", [](cat::Out& o) { auto g = cycle(7); g.permutateEdges(); dump(o, g); });
	add("integer(100)", [](cat::Out& o) { o.push_back(Random::integer(100)); });
#endif
	auto run = [&](const std::vector<cat::Call>& c, unsigned long long seed, const std::vector<int>& ops) { cat::Out o; Random::seed(seed); for (int i : ops) { o.push_back(1000000 + i); c[i].f(o); } return o; };
	if (std::string(argv[1]) == "trace") {
		bool g = argv[2][0] == 'g'; auto& c = g ? G : C; std::vector<int> ops; for (int i = 3; i < argc; i++) ops.push_back(atoi(argv[i]));
		for (size_t k = 1; k <= ops.size(); k++) { cat::Out o = run(c, SEEDS[atoi(argv[2] + 1)], std::vector<int>(ops.begin(), ops.begin() + k)); std::printf("%s ->", c[ops[k - 1]].name); size_t from = 0; for (size_t i = 0; i < o.size(); i++) if (o[i] == 1000000 + ops[k - 1]) from = i + 1; for (size_t i = from; i < o.size() && i < from + 30; i++) std::printf(" %lld", o[i]); std::printf("\n"); }
		std::fflush(stdout); _exit(0);
	}
	std::FILE* f = std::fopen(argv[1], "wb");
	for (int part = 0; part < 2; part++) {
		auto& c = part ? G : C; int D = atoi(argv[2 + part]), n = c.size();
		unsigned long long tot = 1; for (int i = 0; i < D; i++) tot *= n;
		if (!n) tot = 0;
		std::vector<unsigned long long> h(tot * 4);
		// ascending: history i follows history i-1 of the same process; then again in descending order
		auto one = [&](unsigned long long i, int s) { std::vector<int> ops(D); unsigned long long x = i; for (int k = D; k--;) ops[k] = x % n, x /= n; return cat::hash(run(c, SEEDS[s], ops)); };
		for (unsigned long long i = 0; i < tot; i++) for (int s = 0; s < 4; s++) h[i * 4 + s] = one(i, s);
		for (unsigned long long i = tot; i--;) for (int s = 3; s >= 0; s--) if (h[i * 4 + s] != one(i, s)) h[i * 4 + s] = 0; // depends on what ran before re-seeding
		unsigned long long hd[2] = {(unsigned long long)n, tot * 4};
		std::fwrite(hd, 8, 2, f); std::fwrite(h.data(), 8, h.size(), f);
	}
	std::fclose(f); _exit(0);
}
