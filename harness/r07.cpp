// R07: Random::prime: prime, in range, uniform, refused exactly when there is none
#include "r_law.h"
#include "v_num.h"
int main(int argc, char** argv) {
	mc::init(argc, argv); const int M = mc::thorough ? 150 : 60, LO = -6;
	int W = M - LO + 1;
	mc::parallel((u64)W * W, [&](u64 i) {
		Integer l = LO + i / W, u = LO + i % W; std::string nm = "prime(" + mc::str(l) + "," + mc::str(u) + ")"; mc::current("prime", nm);
		std::vector<Integer> pr; for (Integer x = std::max<Integer>(l, 2); x < u; x++) if (ref::prime(x)) pr.push_back(x);
		for (int form = 0; form < (l == 0 ? 2 : 1); form++) {
			auto f = [&] { return form ? Random::prime(u) : Random::prime(l, u); };
			if (pr.empty()) { refused("prime", nm, f); for (u64 w : {0ull, ~0ull, 1ull << 63}) { std::function<u64()> c = [w] { return w; }; env::source = &c; mc::step(); bool r = vh::refuses(f); env::source = nullptr; if (!r) { mc::violation("prime:no prime", nm + " was not refused"); break; } } continue; }
			mc::nontrivial(); mc::state(i);
			u64 a = std::max<Integer>(l, 0) / 2, D = 12; for (u64 x : {(u64)(u / 2 > (Integer)(l <= 2 ? 0 : a) ? u / 2 - (l <= 2 ? 0 : a) : 1), (u64)(u - l), (u64)pr.size(), (u64)(u - std::max<Integer>(l, 0)), (u64)(u - std::max<Integer>(l, 2))}) if (x && D < 50000000) D = std::lcm(D, x); if (D > 2000000) { D = 12; for (u64 x : {(u64)(u / 2 > (Integer)(l <= 2 ? 0 : a) ? u / 2 - (l <= 2 ? 0 : a) : 1), (u64)(u - l), (u64)pr.size()}) D = std::lcm(D, x); }
			std::map<Integer, u64> c; std::vector<u64> miss; std::map<Integer, u64> hit; Words e;
			u64 step = 1; for (u64 k = 0; k < D; k += step) { u64 w = vh::gridWord(k, D); e.set({w}); mc::step(); try { Integer r = f(); c[r]++; hit.insert({r, w}); } catch (Stop&) { if (miss.size() < 3) miss.push_back(w); } catch (std::exception& x) { mc::violation("prime:refused", nm + " is refused although it contains " + mc::str(pr[0]) + ": " + x.what()); break; } }
			for (auto& x : c) if (std::find(pr.begin(), pr.end(), x.first) == pr.end()) { mc::violation("prime:range", nm + " = " + mc::str(x.first)); break; }
			for (Integer p : pr) if (c[p] == 0) { mc::violation("prime:unreachable", nm + " never gives " + mc::str(p)); break; } else if (c[p] != c[pr[0]]) { mc::violation("prime:uniform", nm + " gives " + mc::str(p) + " for " + mc::str(c[p]) + " and " + mc::str(pr[0]) + " for " + mc::str(c[pr[0]]) + " of " + mc::str(D) + " engine words"); break; }
			// one or two missed trials do not change the outcome of the next one
			for (u64 m : miss) for (auto& h : hit) for (int k = 1; k <= 2; k++) { std::vector<u64> ws(k, m); ws.push_back(h.second); e.set(ws); mc::step(); std::string o; try { Integer r = f(); if (r != h.first) o = mc::str(r); } catch (Stop&) { o = "nothing"; } catch (std::exception& x) { o = std::string("refused: ") + x.what(); } if (!o.empty()) { mc::violation("prime:retry", nm + " gives " + o + " instead of " + mc::str(h.first) + " after " + mc::str(k) + " composite candidate(s)"); break; } }
		}
		mc::trace();
	});
	// ranges with a single prime: many composite candidates first (twice as many as there are odd numbers), then the prime
	std::vector<std::pair<Integer, Integer>> gaps = {{24, 30}, {90, 98}, {1328, 1362}, {370262, 370374}, {2010734, 2010882}, {20831324, 20831534}, {1693182318746372, 1693182318747504}, {1425172824437699412, 1425172824437700888}};
	mc::parallel(gaps.size() * 3, [&](u64 i) {
		auto [l, u] = gaps[i / 3]; std::string nm = "prime(" + mc::str(l) + "," + mc::str(u) + ")"; Integer pr = 0, cnt = 0; for (Integer x = l; x < u; x++) if (ref::prime(x)) pr = x, cnt++; if (cnt != 1) return; mc::current("prime", nm); mc::nontrivial(); mc::state(mc::comb(l, i)); u64 D = 4 * (u - l); std::vector<u64> hit, miss;
		for (u64 k = 0; k < D; k++) { vh::Script s({vh::gridWord(k, D)}); s.limit = 1; mc::step(); try { if (Random::prime(l, u) == pr) hit.push_back(vh::gridWord(k, D)); } catch (...) { miss.push_back(vh::gridWord(k, D)); } }
		if (hit.empty() || miss.empty()) return; u64 total = i % 3 == 0 ? (u - l) / 2 : i % 3 == 1 ? (u - l) : 2 * (u - l); u64 pos = 0; std::function<u64()> src = [&]() -> u64 { return pos++ < total ? miss[pos * 7 % miss.size()] : hit[pos % hit.size()]; }; env::source = &src; std::string o; try { Integer r = Random::prime(l, u); if (r != pr) o = "gives " + mc::str(r); } catch (std::exception& x) { o = std::string("is refused: ") + x.what(); } env::source = nullptr; mc::trace(); if (!o.empty()) mc::violation("prime:retry", nm + " " + o + " after " + mc::str(total) + " composite candidates, although it contains " + mc::str(pr));
	});
	// wide ranges and the ends of the type
	auto E = edgeWords(true); std::vector<std::pair<Integer, Integer>> ex = {{0, MX}, {MN, MX}, {MN, 3}, {MN, 100}, {-5, MX}, {MX - 1000, MX}, {MX - 24, MX}, {MX - 30, MX - 20}, {2, MX}, {3, MX}, {0, Integer(1) << 61}, {0, Integer(1) << 60}, {0, (Integer(1) << 61) + 5}, {Integer(1) << 61, Integer(1) << 62}, {Integer(1) << 62, MX}, {114, 128}, {1327, 1362}, {1328, 1362}, {31397, 31470}, {31398, 31470}, {(Integer(1) << 31) - 1, Integer(1) << 31}, {(Integer(1) << 31) - 2, (Integer(1) << 31) + 1}, {1000000007, 1000000008}, {1000000006, 1000000009}, {1000000, 2000000}, {MN, 4}, {-(Integer(1) << 62), Integer(1) << 62}, {-(Integer(1) << 61) * 3, 50}};
	mc::parallel(ex.size(), [&](u64 i) { auto [l, u] = ex[i]; std::string nm = "prime(" + mc::str(l) + "," + mc::str(u) + ")"; for (u64 w : E) for (u64 v : {0ull, ~0ull, w, 0x5555555555555555ull}) { mc::current("prime", nm); vh::Script s({w, v}, w + v); mc::step(); try { Integer r = Random::prime(l, u); if (r < l || r >= u || !ref::prime(r)) { mc::violation("prime:range", nm + " = " + mc::str(r)); return; } if (l == 0) { vh::Script t({w, v}, w + v); Integer q = Random::prime(u); if (q != r) mc::violation("prime:upper", "prime(" + mc::str(u) + ") differs from " + nm); } } catch (std::exception& x) { mc::violation("prime:refused wide", nm + " is refused: " + x.what()); return; } } mc::trace(); mc::nontrivial(); });
	std::vector<std::pair<Integer, Integer>> none = {{MN, 2}, {MN, MN + 1}, {MN, 0}, {MN, -1}, {MX - 23, MX}, {MX - 1, MX}, {114, 127}, {1328, 1361}, {24, 29}, {0, 2}, {-5, 2}, {1, 2}, {5, 5}, {9, 3}, {MX, MN}, {0, MN}, {0, 0}, {1361 + 1, 1361}, {31398, 31469}, {370262 - 1 + 1, 370373}};
	mc::parallel(none.size(), [&](u64 i) { auto [l, u] = none[i]; for (u64 w : E) { refused("prime", "prime(" + mc::str(l) + "," + mc::str(u) + ")", [&, l = l, u = u] { vh::Script s({w}); Random::prime(l, u); }); } });
	mc::sample("prime(0,2): refused for every engine word; prime(0,2^61): never refused");
	return mc::finish();
}
