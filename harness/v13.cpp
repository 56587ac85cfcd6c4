// V13: sequence predicates and their witnesses
#include "vh.h"
#include <list>
#include <deque>
#include <forward_list>
template<class T> static std::string S(const std::vector<T>& v) { std::ostringstream o; o << "{"; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << +v[i]; o << "}"; return o.str(); }
template<class T> using W = __int128;
// r: answer, expected value, and a validity test for the witness when negative
template<class B, class F> static void chk(const char* name, const B& r, bool want, F wit, const std::string& what) {
	mc::step();
	if ((bool)r != want) mc::violation(std::string(name) + ":value", std::string(name) + what + " = " + (r ? "true" : "false"));
	else if (!want && !wit(r)) mc::violation(std::string(name) + ":witness", std::string(name) + what + " gives no valid witness (" + (r.hasReason() ? mc::str(+*r.reason) : "none") + ")");
}
template<class T> static void perms(const std::vector<T>& v, T off) {
	int n = v.size();
	auto inr = [&](T x) { return (__int128)x - (__int128)off >= 0 && (__int128)x - (__int128)off < n; };
	bool want = true; for (size_t i = 0; i < v.size(); i++) { if (!inr(v[i])) want = false; for (size_t j = 0; j < i; j++) if (v[i] == v[j]) want = false; }
	auto wit = [&](const auto& r) { if (!r.hasReason()) return false; auto x = *r.reason; int c = std::count(v.begin(), v.end(), x); return c > 0 && (c > 1 || !inr(x)); };
	std::string w = "(" + S(v) + "," + mc::str(+off) + ")";
	mc::current("isPerm", w);
	chk("isPerm", isPerm(v, off), want, wit, w);
	chk("isPermIt", isPerm(v.begin(), v.end(), off), want, wit, w);
	if (off == 0) { chk("isPerm0", isPerm(v), want, wit, w); chk("isPerm0It", isPerm(v.begin(), v.end()), want, wit, w); }
	mc::trace(); if (want) mc::nontrivial();
	mc::state(mc::hashStr(w, 1));
}
template<class P, class A> static void adj(const char* name, const std::vector<int>& v, P p, A ans, bool wantAny, size_t firstT, size_t firstF) {}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	int L = mc::thorough ? 8 : 7;
	// sequences over 0..3 / -1..L
	mc::parallel(mc::ipow(4, 4), [&](u64 item) {
		auto pre = mc::digits(item, 4, 4);
		for (int l = 0; l <= L; l++) {
			if (l < 4) { if (item % mc::ipow(4, 4 - l)) continue; }
			for (u64 rest = 0; rest < (l <= 4 ? 1 : mc::ipow(4, l - 4)); rest++) {
				std::vector<int> v(pre.begin(), pre.begin() + std::min(l, 4));
				if (l > 4) { auto d = mc::digits(rest, 4, l - 4); v.insert(v.end(), d.begin(), d.end()); }
				mc::state(mc::hashStr(S(v), 2)); mc::current("adjacent", S(v));
				std::list<int> li(v.begin(), v.end()); std::deque<int> dq(v.begin(), v.end()); std::forward_list<int> fl(v.begin(), v.end());
				int calls = 0; // predicates must be applied to neighbours in order
				auto each = [&](const char* pn, auto p) {
					size_t n = v.size(), ft = 0, ff = 0; // length of prefix before first true / false pair
					for (size_t i = 1; i < n; i++) { bool b = p(v[i - 1], v[i]); if (b && !ft) ft = i; if (!b && !ff) ff = i; }
					std::string w = "(" + S(v) + "," + pn + ")";
					auto len = [](size_t want) { return [want](const auto& r) { return r.hasReason() && *r.reason == (Integer)want; }; };
					auto any = [&](const char* nm, const boolean<Integer>& r) { mc::step(); if ((bool)r != (ft > 0)) mc::violation(std::string(nm) + ":value", nm + w + " = " + mc::str((bool)r)); };
					any("anyAdjacent", anyAdjacent(v, p)); any("anyAdjacentIt", anyAdjacent(v.begin(), v.end(), p)); any("anyAdjacentList", anyAdjacent(li, p)); any("anyAdjacentFwd", anyAdjacent(fl.begin(), fl.end(), p));
					chk("noneAdjacent", noneAdjacent(v, p), !ft, len(ft), w); chk("noneAdjacentIt", noneAdjacent(v.begin(), v.end(), p), !ft, len(ft), w); chk("noneAdjacentList", noneAdjacent(li, p), !ft, len(ft), w);
					chk("allAdjacent", allAdjacent(v, p), !ff, len(ff), w); chk("allAdjacentIt", allAdjacent(v.begin(), v.end(), p), !ff, len(ff), w); chk("allAdjacentDq", allAdjacent(dq, p), !ff, len(ff), w);
					mc::trace();
				};
				each("<", std::less<int>()); each("==", std::equal_to<int>()); each("differs by 1", [](int a, int b) { return a - b == 1 || b - a == 1; });
				each("a==0&&b==1", [](int a, int b) { return a == 0 && b == 1; }); each("true", [](int, int) { return true; }); each("false", [](int, int) { return false; });
				auto mono = [&](const char* nm, auto p, auto rc, auto ri, auto rl) {
					size_t ff = 0; for (size_t i = 1; i < v.size() && !ff; i++) if (!p(v[i - 1], v[i])) ff = i;
					auto len = [ff](const auto& r) { return r.hasReason() && *r.reason == (Integer)ff; };
					chk(nm, rc, !ff, len, "(" + S(v) + ")"); chk((nm + std::string("It")).c_str(), ri, !ff, len, "(" + S(v) + ")"); chk((nm + std::string("List")).c_str(), rl, !ff, len, "(" + S(v) + ")");
					mc::trace(); if (!ff) mc::nontrivial();
				};
				mono("areIncreasing", std::less<int>(), areIncreasing(v), areIncreasing(v.begin(), v.end()), areIncreasing(li));
				mono("areNonDecreasing", std::less_equal<int>(), areNonDecreasing(v), areNonDecreasing(v.begin(), v.end()), areNonDecreasing(li));
				mono("areDecreasing", std::greater<int>(), areDecreasing(v), areDecreasing(v.begin(), v.end()), areDecreasing(li));
				mono("areNonIncreasing", std::greater_equal<int>(), areNonIncreasing(v), areNonIncreasing(v.begin(), v.end()), areNonIncreasing(li));
				bool dist = std::set<int>(v.begin(), v.end()).size() == v.size();
				auto dup = [&](const auto& r) { return r.hasReason() && std::count(v.begin(), v.end(), *r.reason) > 1; };
				std::string w = "(" + S(v) + ")";
				chk("areDistinct", areDistinct(v), dist, dup, w); chk("areDistinctIt", areDistinct(v.begin(), v.end()), dist, dup, w); chk("areDistinctList", areDistinct(li), dist, dup, w);
				for (int off : {0, 1, -1, 2, 3, -3, 7}) perms<int>(v, off);
				// shifted to the ends of several types
				for (Integer base : {std::numeric_limits<Integer>::min(), std::numeric_limits<Integer>::max() - 3, Integer(-2), Integer(1) << 62}) {
					std::vector<Integer> u; for (int x : v) u.push_back(base + x);
					for (Integer o : {base, base + 1, Integer(0), std::numeric_limits<Integer>::max(), std::numeric_limits<Integer>::min(), Integer(-(Integer(1) << 62))}) if (v.size() <= 5) perms<Integer>(u, o);
				}
				if (v.size() <= 5) {
					std::vector<signed char> sc; std::vector<unsigned char> uc; std::vector<unsigned> ui; std::vector<short> sh;
					for (int x : v) { sc.push_back((signed char)(x + 126 > 127 ? x + 126 - 256 : x + 126)); uc.push_back((unsigned char)(x + 254)); ui.push_back(x + 0xfffffffeu); sh.push_back((short)(x - 32768)); }
					for (signed char o : {126, -128, 0, -1}) perms<signed char>(sc, o);
					for (unsigned char o : {254, 0, 255}) perms<unsigned char>(uc, o);
					for (unsigned o : {0xfffffffeu, 0u, 1u, 0xffffffffu}) perms<unsigned>(ui, o);
					for (short o : {-32768, 0, -32767}) perms<short>(sh, o);
				}
			}
		}
	});
	// permutations of [off, off+n) with one element changed to anything in the neighbourhood
	mc::parallel(720, [&](u64 pi) {
		std::vector<int> p = {0, 1, 2, 3, 4, 5}; for (u64 i = 0; i < pi; i++) std::next_permutation(p.begin(), p.end());
		for (int off : {0, 1, -6, 100}) {
			std::vector<int> v; for (int x : p) v.push_back(x + off);
			perms<int>(v, off);
			for (int i = 0; i < 6; i++) for (int d = -9; d <= 9; d++) { auto u = v; u[i] += d; perms<int>(u, off); }
		}
	});
	// is one sequence a permutation of the other
	std::vector<std::vector<int>> seqs; int P = mc::thorough ? 5 : 4;
	for (int l = 0; l <= P; l++) for (u64 i = 0; i < mc::ipow(4, l); i++) seqs.push_back(mc::digits(i, 4, l));
	mc::parallel(seqs.size(), [&](u64 i) {
		auto& a = seqs[i];
		for (auto& b : seqs) {
			auto x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
			std::list<int> bl(b.begin(), b.end());
			auto wit = [&](const auto& r) { return a.size() == b.size() ? r.hasReason() && std::count(a.begin(), a.end(), *r.reason) > 0 : true; };
			std::string w = "(" + S(a) + "," + S(b) + ")"; mc::current("isPerm2", w); mc::state(mc::hashStr(w, 3));
			chk("isPerm2", isPerm(a, b), x == y, wit, w); chk("isPerm2It", isPerm(a.begin(), a.end(), bl.begin(), bl.end()), x == y, wit, w); mc::trace();
		}
	});
	// long sequences: one defect far inside, every predicate and witness
	const std::vector<int> LN = {128, 129, 255, 256, 257, 300, 1000, 4097, 32769, 65537, mc::thorough ? 300000 : 70000};
	mc::parallel(LN.size() * 3, [&](u64 it) {
		int n = LN[it / 3], form = it % 3; std::set<int> pos; for (int e : {1, 2, n / 2, n - 2, n - 1, 127, 128, 255, 256, 257, 299, 1000, 4096, 32767, 32768, 65535, 65536}) if (e < n) pos.insert(e);
		pos.insert(0); // 0: no defect
		std::string fw[] = {"vector", "list", "iterators of a deque"};
		auto with = [&](const std::vector<Integer>& v, auto f) { if (form == 0) return f(v); if (form == 1) return f(std::list<Integer>(v.begin(), v.end())); return f(std::deque<Integer>(v.begin(), v.end())); };
		auto run = [&](const char* nm, const std::vector<Integer>& v, const std::string& w, auto call, bool want, auto wit) {
			mc::current(nm, w); mc::trace();
			with(v, [&](const auto& c) { chk((std::string(nm) + ":long").c_str(), call(c), want, wit, " of " + mc::str(n) + " elements as " + fw[form] + ", " + w); });
		};
		for (int p : pos) { std::string w = p ? "defect at " + mc::str(p) : "no defect"; mc::state(mc::hashStr(w, it));
			auto len = [p](const auto& r) { return r.hasReason() && *r.reason == (Integer)p; };
#define CALL(f) [&](const auto& c) { if constexpr (std::is_same_v<std::decay_t<decltype(c)>, std::deque<Integer>>) return f(c.begin(), c.end()); else return f(c); }
#define CALLP(f) [&](const auto& c) { auto d1 = [](Integer a, Integer b) { return b - a == 1; }; if constexpr (std::is_same_v<std::decay_t<decltype(c)>, std::deque<Integer>>) return f(c.begin(), c.end(), d1); else return f(c, d1); }
			for (int step : {1, -1}) { std::vector<Integer> v(n), f(n), e(n); for (int i = 0; i < n; i++) v[i] = step * i, f[i] = step * (i / 2), e[i] = 5; if (p) { for (int i = p; i < n; i++) v[i] -= step * 2, f[i] -= step * n; e[p] += step; }
				if (step > 0) { run("areIncreasing", v, w, CALL(areIncreasing), !p, len); run("areNonDecreasing", f, w, CALL(areNonDecreasing), !p, len); }
				else { run("areDecreasing", v, w, CALL(areDecreasing), !p, len); run("areNonIncreasing", f, w, CALL(areNonIncreasing), !p, len); }
				if (step > 0) { run("allAdjacent", v, w, CALLP(allAdjacent), !p, len); if (p) { for (int i = p; i < n; i++) v[i] = 7 - i * 2; } else for (int i = 0; i < n; i++) v[i] = -i; std::vector<Integer> z(n, 5); if (p) z[p] = 6;
					run("noneAdjacent", z, w, CALLP(noneAdjacent), !p, len); run("anyAdjacent", z, w, [&](const auto& c) { return boolean<Integer>((bool)(CALLP(anyAdjacent))(c) == (p > 0)); }, true, len); } }
			for (Integer off : {Integer(0), Integer(1), Integer(-100), std::numeric_limits<Integer>::max() - n + 1, std::numeric_limits<Integer>::min()}) {
				std::vector<Integer> v(n); for (int i = 0; i < n; i++) v[i] = off + (Integer)((u64)i * 7919 % n == 0 && i ? i : (u64)i * 7919 % n); { std::set<Integer> q(v.begin(), v.end()); if ((int)q.size() != n) for (int i = 0; i < n; i++) v[i] = off + (n - 1 - i); }
				Integer bad = 0; bool oob = false;
				auto distinct = [&](const auto& r) { return r.hasReason() && std::count(v.begin(), v.end(), *r.reason) > 1; };
				auto permw = [&](const auto& r) { return r.hasReason() && std::count(v.begin(), v.end(), *r.reason) > 0 && (std::count(v.begin(), v.end(), *r.reason) > 1 || (__int128)*r.reason < (__int128)off || (__int128)*r.reason >= (__int128)off + n); };
				for (int kind = 0; kind < (p ? 3 : 1); kind++) { auto keep = v; if (p && kind == 0) v[p] = v[p / 2]; if (p && kind == 1) v[p] = off > 0 ? off - 1 : off + n; if (p && kind == 2) { v[p] = (Integer)((UInteger)v[p] + (UInteger(1) << 32)); if ((__int128)v[p] < (__int128)keep[p]) { v = keep; continue; } }
					if (kind == 0) run("areDistinct", v, w, CALL(areDistinct), !p, distinct);
					run("isPerm", v, w + " offset " + mc::str(off), [&](const auto& c) { if constexpr (std::is_same_v<std::decay_t<decltype(c)>, std::deque<Integer>>) return isPerm(c.begin(), c.end(), off); else return isPerm(c, off); }, !p, permw);
					if (kind == 0) { auto b = keep; std::reverse(b.begin(), b.end()); run("isPerm2", v, w + " against another sequence", [&](const auto& c) { return isPerm(c, b); }, !p, [&](const auto& r) { return r.hasReason(); }); }
					v = keep; }
			}
		}
	});
	mc::sample("areDistinct({0,1,0}) witness 0; isPerm({min,min+1},min) true; allAdjacent({0,1,0},<) prefix 2");
	return mc::finish();
}
