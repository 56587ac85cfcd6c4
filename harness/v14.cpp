// V14: range, thueMorse, append, flatten, asFunction, contains, shorter/longer, MinPQ/MaxPQ, coordinates
#include "vh.h"
#include <list>
#include <deque>
#include <unordered_map>
using I128 = __int128;
static std::string S(const std::vector<Integer>& v) { return mc::show(v); }
static void rng(Integer from, Integer to, Integer step) {
	std::string w = "range(" + mc::str(from) + "," + mc::str(to) + "," + mc::str(step) + ")";
	mc::current("range", w); mc::step(); mc::trace();
	if (step == 0) { if (!vh::refuses([&] { range(from, to, step); })) mc::violation("range:zero", w + " accepted"); return; }
	std::vector<Integer> want;
	for (I128 x = from; step > 0 ? x < to : x > to; x += step) { want.push_back((Integer)x); if (want.size() > 3000) return; }
	mc::state(mc::hashStr(w)); if (want.size() > 1) mc::nontrivial();
	auto got = range(from, to, step);
	if (got != want) mc::violation("range:value", w + " = " + S(got));
	if (step == 1) {
		if (range(from, to) != want) mc::violation("range:2", w + " two-argument form differs");
		if (from == 0 && range(to) != want) mc::violation("range:1", w + " one-argument form differs");
	}
}
static void tm(Integer lo, Integer hi) {
	std::string w = "thueMorse(" + mc::str(lo) + "," + mc::str(hi) + ")"; mc::current("thueMorse", w); mc::step(); mc::trace();
	if (lo < 0 || lo >= hi) { if (!vh::refuses([&] { thueMorse(lo, hi); })) mc::violation("thueMorse:refuse", w + " accepted"); return; }
	std::vector<Integer> want; for (Integer x = lo; x < hi; x++) { int b = 0; for (UInteger y = x; y; y >>= 1) b ^= y & 1; want.push_back(b); }
	auto got = thueMorse(lo, hi); mc::state(mc::hashStr(w));
	if (got != want) mc::violation("thueMorse:value", w + " wrong");
	if (lo == 0 && thueMorse(hi) != want) mc::violation("thueMorse:1", w + " one-argument form differs");
}
struct P3 { int x, y, z; };
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const Integer MX = std::numeric_limits<Integer>::max(), MN = std::numeric_limits<Integer>::min();
	std::vector<Integer> g; for (int i = -12; i <= 12; i++) g.push_back(i);
	std::vector<Integer> ends = g; for (int i = 0; i <= 7; i++) { ends.push_back(MX - i); ends.push_back(MN + i); } ends.push_back(LARGE); ends.push_back(-LARGE); for (Integer b : {Integer(1) << 31, Integer(1) << 32, Integer(1) << 62}) { ends.push_back(b); ends.push_back(-b); ends.push_back(b - 1); }
	std::vector<Integer> steps = g; for (Integer s : {MX, MN, MN + 1, MX - 1, LARGE, -LARGE, MX / 2, MX / 3, Integer(1) << 32, -(Integer(1) << 32), Integer(1) << 62, Integer(1) << 61, -(Integer(1) << 61), Integer(1) << 60, MX / 7, MN / 5}) steps.push_back(s);
	mc::parallel(ends.size(), [&](u64 i) { for (Integer to : ends) for (Integer st : steps) rng(ends[i], to, st); });
	int W = mc::thorough ? 1100 : 300;
	mc::parallel(W, [&](u64 lo) { for (int hi = -1; hi <= W; hi++) tm((Integer)lo - 2, hi); });
	mc::parallel(63, [&](u64 b) { Integer p = b == 63 ? MX : Integer(1) << b; for (Integer d = -9; d <= 9; d++) for (Integer l = 0; l <= 70; l++) { if (p > MX - d - l && d > 0) continue; tm(p + d, p + d + l); } tm(MX - b, MX); tm(-Integer(b) - 1, 5); tm(MN, MX); });
	// long results
	mc::parallel(8 * 12, [&](u64 it) {
		const Integer N[] = {129, 257, 1000, 32769, 65537, 70001, 140000, mc::thorough ? 3000001 : 200001}; Integer n = N[it % 8];
		if (it / 8 < 9) { const Integer F[] = {0, -5, 7, MN, MX - 1}, ST[] = {1, -1, 2, -3, 1000003, -(Integer(1) << 33), (Integer(1) << 40) + 1, 17, -400}; Integer st = ST[it / 8];
			for (Integer f : F) for (Integer extra : {Integer(0), Integer(1)}) { I128 t = (I128)f + (I128)st * n - (st > 0 ? extra : -extra); if (t > MX || t < MN) continue; Integer to = (Integer)t;
				std::string w = "range(" + mc::str(f) + "," + mc::str(to) + "," + mc::str(st) + ")"; mc::current("long-range", w); mc::step(); mc::trace(); mc::state(mc::hashStr(w));
				auto got = range(f, to, st); I128 x = f; size_t i = 0; bool ok = true; for (; st > 0 ? x < to : x > to; x += st, i++) if (i >= got.size() || got[i] != (Integer)x) { ok = false; break; }
				if (!ok || got.size() != i) mc::violation("range:long", w + " wrong at element " + mc::str(i) + " of " + mc::str(n));
				if (st == 1) { if (range(f, to) != got) mc::violation("range:long2", w + " two-argument form differs"); if (f == 0 && range(to) != got) mc::violation("range:long1", w + " one-argument form differs"); } }
		} else if (it / 8 == 9) for (Integer lo : {Integer(0), Integer(3), Integer(1) << 20, (Integer(1) << 40) - 1000, (Integer(1) << 62) - 12345, MX - n}) tm(lo, lo + n);
		else { std::vector<Integer> a, b, w; for (Integer i = 0; i < n; i++) { a.push_back(i * i); b.push_back(-i); } w = a; w.insert(w.end(), b.begin(), b.end());
			mc::current("long-append", mc::str(n)); mc::step(3); mc::trace(); mc::state(mc::comb(n, it));
			if (it / 8 == 10) { auto c = a; append(c, b); if (c != w) mc::violation("append:long", mc::str(n) + " + " + mc::str(n) + " elements"); std::list<Integer> l(b.begin(), b.end()); c = a; append(c, l); if (c != w) mc::violation("append:longlist", mc::str(n)); c = a; append(c, c); w = a; w.insert(w.end(), a.begin(), a.end()); if (c != w) mc::violation("append:longself", mc::str(n)); }
			else { std::vector<std::vector<Integer>> nn(n); std::vector<Integer> fw; for (Integer i = 0; i < n; i++) for (Integer k = 0; k < i % 3; k++) { nn[i].push_back(i + k); fw.push_back(i + k); } nn.push_back(w); fw.insert(fw.end(), w.begin(), w.end()); if (flatten(nn) != fw) mc::violation("flatten:long", mc::str(n) + " inner lists");
				auto f = asFunction(a); for (Integer i = 0; i < n; i++) if (f(i) != a[i]) { mc::violation("asFunction:long", "index " + mc::str(i)); break; }
				MinPQ<Integer> mn; MaxPQ<Integer> mx; for (Integer i = 0; i < n; i++) { Integer x = (Integer)((u64)i * 7919 % 65599); mn.push(x); mx.push(x); } Integer pa = MN, pb = MX; bool ok = true; for (Integer i = 0; i < n; i++) { ok = ok && mn.top() >= pa && mx.top() <= pb; pa = mn.top(); pb = mx.top(); mn.pop(); mx.pop(); } if (!ok || !mn.empty() || !mx.empty()) mc::violation("PQ:long", mc::str(n) + " elements out of order"); } }
	});
	// containers
	std::vector<std::vector<int>> seqs; for (int l = 0; l <= 4; l++) for (u64 i = 0; i < mc::ipow(3, l); i++) seqs.push_back(mc::digits(i, 3, l));
	mc::parallel(seqs.size(), [&](u64 i) {
		auto& a = seqs[i]; mc::current("append", mc::show(a));
		for (auto& b : seqs) {
			std::vector<int> want = a; want.insert(want.end(), b.begin(), b.end());
			{ auto c = a; append(c, b); mc::step(); if (c != want) mc::violation("append:vector", mc::show(a) + " + " + mc::show(b) + " = " + mc::show(c)); }
			{ std::list<int> c(a.begin(), a.end()); std::deque<int> d(b.begin(), b.end()); append(c, d); mc::step(); if (std::vector<int>(c.begin(), c.end()) != want || std::vector<int>(d.begin(), d.end()) != b) mc::violation("append:list", mc::show(a) + " + " + mc::show(b)); }
			
			{ auto c = a; std::list<int> d(b.begin(), b.end()); append(c, d); mc::step(); if (c != want) mc::violation("append:fromlist", mc::show(a) + " + " + mc::show(b)); }
			if (shorter()(a, b) != (a.size() < b.size())) mc::violation("shorter", mc::show(a) + " " + mc::show(b));
			if (longer()(a, b) != (a.size() > b.size())) mc::violation("longer", mc::show(a) + " " + mc::show(b));
			if (shorter()(std::string(a.size(), 'x'), b) != (a.size() < b.size()) || longer()(std::string(a.size(), 'x'), b) != (a.size() > b.size())) mc::violation("shorter:mixed", mc::show(a) + " " + mc::show(b));
			mc::trace();
			for (auto& c : seqs) { if (c.size() > 2) break; // flatten two levels
				std::vector<std::vector<int>> n = {a, b, c}; auto w = want; w.insert(w.end(), c.begin(), c.end());
				auto f = flatten(n); auto f2 = flatten(std::vector<std::vector<int>>(n)); auto f3 = flatten<std::vector<int>>(n); mc::step(3);
				if (f != w || f2 != w) mc::violation("flatten:2", "flatten(" + mc::show(a) + "," + mc::show(b) + "," + mc::show(c) + ") = " + mc::show(f));
				if (f3 != n) mc::violation("flatten:mid", "flatten<vector>(...) is not the list of vectors");
				std::list<std::vector<std::deque<int>>> deep = {{std::deque<int>(a.begin(), a.end()), {}}, {}, {std::deque<int>(b.begin(), b.end()), std::deque<int>(c.begin(), c.end())}};
				std::vector<int> dw; for (auto& x : deep) for (auto& y : x) for (int z : y) dw.push_back(z);
				if (flatten(deep) != dw) mc::violation("flatten:3", "three-level flatten wrong for " + mc::show(a));
				mc::trace();
			}
		}
		{ auto c = a; append(c, c); auto w = a; w.insert(w.end(), a.begin(), a.end()); mc::step(); if (c != w) mc::violation("append:self", mc::show(a) + " appended to itself = " + mc::show(c)); }
		{ std::list<int> c(a.begin(), a.end()); append(c, c); auto w = a; w.insert(w.end(), a.begin(), a.end()); if (std::vector<int>(c.begin(), c.end()) != w) mc::violation("append:selflist", mc::show(a)); }
		{ auto c = a; int arr[3] = {7, 8, 9}; append(c, arr); auto w = a; for (int x : arr) w.push_back(x); if (c != w) mc::violation("append:array", mc::show(a)); }
		{ std::vector<std::vector<std::string>> n(2); for (int x : a) { n[0].push_back(std::string(x, 'q')); n[1].push_back("z" + std::to_string(x)); }
		  std::vector<std::string> w = n[0]; w.insert(w.end(), n[1].begin(), n[1].end()); std::vector<char> wc; for (auto& s : w) for (char ch : s) wc.push_back(ch);
		  if (flatten<std::string>(n) != w) mc::violation("flatten:string", "flatten<string>"); if (flatten(n) != wc) mc::violation("flatten:char", "flatten to char"); }
		auto fl = asFunction(a); auto fr = asFunction(std::vector<int>(a));
		for (size_t k = 0; k < a.size(); k++) { mc::step(2); if (fl(k) != a[k] || fr(k) != a[k]) mc::violation("asFunction", "asFunction(" + mc::show(a) + ")(" + mc::str(k) + ")"); }
		auto cp = a; auto fv = asFunction(cp); for (auto& x : cp) x += 5; for (size_t k = 0; k < a.size(); k++) if (fv(k) != a[k] + 5) mc::violation("asFunction:ref", "asFunction of a named container does not view it");
		auto fi = asFunction({3, 1, 2}); if (fi(0) != 3 || fi(1) != 1 || fi(2) != 2) mc::violation("asFunction:list", "brace list");
		std::map<int, int> m; std::set<int> st(a.begin(), a.end()); for (int x : a) m[x] = x * x;
		for (int k = -1; k <= 4; k++) { bool w = std::find(a.begin(), a.end(), k) != a.end(); if (contains(st, k) != w || contains(m, k) != w) mc::violation("contains", mc::show(a) + " " + mc::str(k)); }
		MinPQ<int> mn; MaxPQ<int> mx; MinPQ<int, std::greater<int>> mng; for (int x : a) mn.push(x), mx.push(x), mng.push(x);
		auto so = a; std::sort(so.begin(), so.end());
		for (size_t k = 0; k < so.size(); k++) { int x = mn.top(), y = mx.top(), z = mng.top(); mn.pop(); mx.pop(); mng.pop(); mc::step(3);
			if (x != so[k]) mc::violation("MinPQ", "MinPQ order wrong for " + mc::show(a)); if (y != so[so.size() - 1 - k]) mc::violation("MaxPQ", "MaxPQ order wrong for " + mc::show(a)); if (z != so[so.size() - 1 - k]) mc::violation("MinPQ:greater", "MinPQ with comparator wrong"); }
		if (a.size() == 3) {
			std::pair<int, int> p(a[0], a[1]); std::tuple<int, int, int> t(a[0], a[1], a[2]); std::array<int, 3> r = {a[0], a[1], a[2]}; std::complex<double> z(a[0], a[1]); P3 q{a[0], a[1], a[2]};
			bool ok = getX(p) == a[0] && getY(p) == a[1] && getX(t) == a[0] && getY(t) == a[1] && getZ(t) == a[2] && getX(r) == a[0] && getZ(r) == a[2] && getY(r) == a[1] && getX(z) == a[0] && getY(z) == a[1] && getX(q) == a[0] && getY(q) == a[1] && getZ(q) == a[2];
			auto cz = convert(p); auto cp2 = convert(z); ok = ok && cz.real() == a[0] && cz.imag() == a[1] && cp2.first == a[0] && cp2.second == a[1];
			getX(p) = 11; getY(t) = 12; getZ(q) = 13; getX(r) = 14; ok = ok && p.first == 11 && std::get<1>(t) == 12 && q.z == 13 && r[0] == 14;
			const auto pc = p; ok = ok && getX(pc) == 11; mc::step(20);
			if (!ok) mc::violation("coordinates", "getX/getY/getZ/convert wrong for " + mc::show(a));
		}
		mc::state(mc::hashStr(mc::show(a), 9)); mc::trace();
	});
	mc::sample("range(INT64_MAX-3, INT64_MIN+2, -2^61); thueMorse(2^40-9, 2^40+61); append(v,v)");
	return mc::finish();
}
